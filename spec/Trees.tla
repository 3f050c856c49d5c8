------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* The structure of an R-tree.                                             *)
(*                                                                         *)
(* An entry is a triple <<kid, ser, vid>>: kid identifies the key up to    *)
(* equality (its box is keys[kid]), ser the key object, vid the value.     *)
(* A node is a record [b, l, c, e]: its bounds, its level, the sequence of  *)
(* its child nodes (none iff l = 0) and the sequence of its entries (none  *)
(* unless l = 0).                                                          *)
(***************************************************************************)
EXTENDS Boxes, SequencesExt

Kid(e) == e[1]
Ser(e) == e[2]
Vid(e) == e[3]

RangeOf(s) == { s[i] : i \in DOMAIN s }

RECURSIVE Entries(_)
\* All entries below a node, in order.
Entries(n) ==
    IF n.l = 0 THEN n.e
    ELSE FlattenSeq([i \in DOMAIN n.c |-> Entries(n.c[i])])

RECURSIVE Nodes(_)
\* The set of all nodes of a subtree.
Nodes(n) ==
    {n} \cup (IF n.l = 0 THEN {} ELSE UNION { Nodes(n.c[i]) : i \in DOMAIN n.c })

RECURSIVE NodeBounds(_)
NodeBounds(n) ==
    {n.b} \cup (IF n.l = 0 THEN {} ELSE UNION { NodeBounds(n.c[i]) : i \in DOMAIN n.c })

ChildBoxes(n, keys) ==
    IF n.l = 0 THEN { keys[Kid(n.e[i])] : i \in DOMAIN n.e }
    ELSE { n.c[i].b : i \in DOMAIN n.c }

RECURSIVE Covers(_, _)
\* Every bounds contains the bounds of everything below it.
Covers(n, keys) ==
    /\ \A b \in ChildBoxes(n, keys) : BoxContains(n.b, b)
    /\ n.l > 0 => \A i \in DOMAIN n.c : Covers(n.c[i], keys)

RECURSIVE Tight(_, _)
\* Every bounds is the least box containing what is below it.
Tight(n, keys) ==
    /\ IF n.c = <<>> /\ n.e = <<>> THEN EmptyBox(n.b)
       ELSE IsLeastBox(n.b, ChildBoxes(n, keys))
    /\ n.l > 0 => \A i \in DOMAIN n.c : Tight(n.c[i], keys)

RECURSIVE Balanced(_)
Balanced(n) ==
    n.l > 0 => \A i \in DOMAIN n.c : n.c[i].l = n.l - 1 /\ Balanced(n.c[i])

RECURSIVE Occupied(_, _, _, _)
\* Node sizes are within the limits.
Occupied(n, isRoot, max, min) ==
    LET k == Len(n.c) + Len(n.e)
        least == IF 2 * min <= max + 1 THEN MaxOf(min, 1) ELSE 1
    IN /\ k <= max
       /\ ~isRoot => k >= least
       /\ isRoot /\ n.l > 0 => k >= 2
       /\ n.l > 0 => \A i \in DOMAIN n.c : Occupied(n.c[i], FALSE, max, min)

WellSized(root, cfg) == Occupied(root, TRUE, cfg[1], cfg[2])

RECURSIVE MapEntries(_, _)
\* The same arrangement with every entry e replaced by f[e].
MapEntries(n, f) ==
    [n EXCEPT !.e = [i \in DOMAIN n.e |-> f[n.e[i]]],
              !.c = [i \in DOMAIN n.c |-> MapEntries(n.c[i], f)]]

RECURSIVE Reach(_, _)
\* The entries below groups that are all accepted.
Reach(n, acc) ==
    IF n.b \notin acc THEN {}
    ELSE IF n.l = 0 THEN RangeOf(n.e)
    ELSE UNION { Reach(n.c[i], acc) : i \in DOMAIN n.c }

RECURSIVE ReachBounds(_, _)
\* The bounds of the groups whose enclosing groups are all accepted.
ReachBounds(n, acc) ==
    {n.b} \cup (IF n.b \notin acc \/ n.l = 0 THEN {}
                ELSE UNION { ReachBounds(n.c[i], acc) : i \in DOMAIN n.c })

\* A key may be recorded without the identity of the key object (ser = -1).
SameKey(x, e) == Kid(x) = Kid(e) /\ (Ser(x) = Ser(e) \/ Ser(x) = -1)

RECURSIVE LeafBoundsOf(_, _)
\* The bounds of the leaf nodes that hold an entry with the key x.
LeafBoundsOf(n, x) ==
    IF n.l = 0 THEN (IF \E i \in DOMAIN n.e : SameKey(x, n.e[i]) THEN {n.b} ELSE {})
    ELSE UNION { LeafBoundsOf(n.c[i], x) : i \in DOMAIN n.c }

NoDup(s) == Cardinality(RangeOf(s)) = Len(s)

\* The position of the first entry of sequence s whose key equals k, or 0.
FirstPos(s, k) ==
    IF \E i \in DOMAIN s : Kid(s[i]) = k
    THEN CHOOSE i \in DOMAIN s :
            Kid(s[i]) = k /\ \A j \in 1..(i - 1) : Kid(s[j]) # k
    ELSE 0
=============================================================================
