----------------------------- MODULE RTreePanics -----------------------------
(***************************************************************************)
(* The moments at which user code runs inside insert, insert_unique,       *)
(* remove and clone, and who owns the entries then.                        *)
(*                                                                         *)
(* User code (bounds, union, volume, equality, ..., drop) may panic.  What *)
(* is then left is decided by where the entries are at that moment:        *)
(*   tree   the root of the tree, as an iteration would find it            *)
(*   held   entries in local variables that unwinding drops                *)
(*   lost   entries in memory that nobody drops any more (nodes without    *)
(*          their container): a leak, which is allowed                     *)
(* The moments follow the steps of RTreeAlgo.  (Keys and values are not    *)
(* told apart here; that is left to the executions of the code.)           *)
(***************************************************************************)
EXTENDS RTreeAlgo

Moment(root, held, lost) == [tree |-> root, held |-> held, lost |-> lost]

\* The entries of an item of a node of level l, and of several.
In(l, x) == IF l = 0 THEN {x} ELSE RangeOf(Entries(x))
AllIn(l, s) == UNION { In(l, s[i]) : i \in DOMAIN s }

\* The moments of a child, seen from its parent.
Below(n, i, ms) == { [m EXCEPT !.tree = [n EXCEPT !.c[i] = m.tree]] : m \in ms }
\* While others hold more.
Holding(ms, more) == { [m EXCEPT !.held = @ \cup more] : m \in ms }
Losing(ms, more) == { [m EXCEPT !.lost = @ \cup more] : m \in ms }

---------------------------------------------------------------------------
(* Splitting.  Entries of a leaf are owned by the vectors they are in;     *)
(* nodes are bare while they are distributed.                              *)

Half(l, tree, out) ==
    IF l = 0 THEN Moment(tree, AllIn(l, out), {}) ELSE Moment(tree, {}, AllIn(l, out))

RECURSIVE DistributeMoments(_, _, _, _, _, _, _, _)
DistributeMoments(P, n, vals, n1, g2, b1, b2, over) ==
    {Half(n.l, Node(n.l, n.b, vals), g2)} \cup
    IF n1 >= Len(vals) THEN {}
    ELSE LET left == Len(vals) - n1
             rest == SubSeq(vals, n1 + 1, Len(vals))
             inc(b) == [i \in DOMAIN rest |-> Grows(b, BoundsOf(P, n.l, rest[i]))]
             i1 == inc(b1)
             i2 == inc(b2)
             c1 == FirstMin(i1)
             c2 == FirstMin(i2)
             first == IF i1[c1] < i2[c2] THEN Len(g2) + left > P.min
                                         ELSE n1 + left = P.min
         IN IF first
            THEN DistributeMoments(P, n, SwapAt(vals, n1 + c1, n1 + 1), n1 + 1, g2,
                                   BoxUnion(b1, BoundsOf(P, n.l, rest[c1])), b2, over)
            ELSE DistributeMoments(P, n, SwapRemove(vals, n1 + c2), n1,
                                   Append(g2, rest[c2]), b1,
                                   BoxUnion(b2, BoundsOf(P, n.l, rest[c2])), over)

SplitMoments(P, n, over) ==
    LET items == Items(n)
        s == Seeds(P, n.l, items, over)
        v1 == SwapAt(items, 1, s[1])
        into == s[2] <= Len(items)
        v2 == IF into THEN [v1 EXCEPT ![s[2]] = over] ELSE v1
        seed == IF into THEN v1[s[2]] ELSE over
    IN {Half(n.l, n, <<over>>)}
       \cup DistributeMoments(P, n, v2, 1, <<seed>>, BoundsOf(P, n.l, v2[1]), BoundsOf(P, n.l, seed), over)

---------------------------------------------------------------------------
AddMoments(P, n, x) ==
    {Moment(n, In(n.l, x), {})} \cup
    IF Len(Items(n)) < P.max
    THEN {Moment(AddItem(P, n, x)[1], {}, {})}
    ELSE SplitMoments(P, n, x)
         \* the halves are complete, old bounds are dropped
         \cup LET r == AddItem(P, n, x) IN {Moment(r[1], RangeOf(Entries(r[2][1])), {})}

RegrowMoments(P, n, i, r, b) ==
    LET cs == [n.c EXCEPT ![i] = r[1]]
        m == Node(n.l, n.b, cs)
    IN IF r[2] = <<>> THEN {Moment(m, {}, {})}
       ELSE {Moment(m, RangeOf(Entries(r[2][1])), {})}
            \cup AddMoments(P, Node(n.l, UnionAll(P, n.l, cs), cs), r[2][1])

RECURSIVE InsertMoments(_, _, _, _)
InsertMoments(P, n, at, x) ==
    IF n.l = at THEN AddMoments(P, n, x)
    ELSE LET b == BoundsOf(P, at, x)
             i == Select(n, b)
         IN {Moment(n, In(at, x), {})}
            \cup Below(n, i, InsertMoments(P, n.c[i], at, x))
            \cup RegrowMoments(P, n, i, Insert(P, n.c[i], at, x), b)

BranchMoments(r) ==
    IF r[2] = <<>> THEN {} ELSE {Moment(r[1], RangeOf(Entries(r[2][1])), {}), Moment(Branch(r), {}, {})}

GrowMoments(P, root, at, x) ==
    InsertMoments(P, root, at, x) \cup BranchMoments(Insert(P, root, at, x))

InsertEntryMoments(P, root, e) == GrowMoments(P, root, 0, e)

InsertUniqueMoments(P, root, e) ==
    LET p == Find(P, root, Kid(e)) IN
    {Moment(root, {e}, {})} \cup
    \* The previous value is on its way out, the key that came with the new one is dropped.
    IF p # <<>> THEN {Moment(root, {e}, {})}
    ELSE GrowMoments(P, root, 0, e)

---------------------------------------------------------------------------
RECURSIVE RemoveInMoments(_, _, _)
RemoveInMoments(P, n, k) ==
    {Moment(n, {}, {})} \cup
    LET r == RemoveIn(P, n, k) IN
    IF r.found = <<>> THEN {}
    ELSE IF n.l = 0 THEN {Moment(r.n, RangeOf(r.found), {})}
    ELSE LET hits == { i \in DOMAIN n.c : BoxMeets(n.c[i].b, P.keys[k])
                                          /\ RemoveIn(P, n.c[i], k).found # <<>> }
             i == CHOOSE i \in hits : \A j \in hits : i <= j
             s == RemoveIn(P, n.c[i], k)
             few == Len(Items(s.n)) < Least(P)
             deeper == UNION { AllIn(s.loose[j][1], s.loose[j][2]) : j \in DOMAIN s.loose }
             here == Node(n.l, n.b, [n.c EXCEPT ![i] = s.n])
             out == AllIn(s.n.l, Items(s.n))
         IN Below(n, i, RemoveInMoments(P, n.c[i], k))
            \cup {Moment(here, RangeOf(s.found), deeper)}
            \cup IF ~few THEN {}
                 ELSE LET without == Node(n.l, n.b, SwapRemove(n.c, i)) IN
                      {Moment(without, RangeOf(s.found) \cup out, deeper),
                       Moment(without, RangeOf(s.found), deeper \cup out)}

RECURSIVE ReinsertMoments(_, _, _)
\* The group that is being inserted again is owned by its iterator, later groups are bare.
ReinsertMoments(P, root, loose) ==
    IF loose = <<>> THEN {}
    ELSE LET g == loose[1]
             later == UNION { AllIn(loose[j][1], loose[j][2]) : j \in 2..Len(loose) }
             tree[i \in 0..Len(g[2])] ==
                IF i = 0 THEN root ELSE Branch(Insert(P, tree[i - 1], g[1], g[2][i]))
             rest(i) == AllIn(g[1], SubSeq(g[2], i + 1, Len(g[2])))
         IN Losing(UNION { Holding(GrowMoments(P, tree[i - 1], g[1], g[2][i]), rest(i)) : i \in DOMAIN g[2] },
                   later)
            \cup ReinsertMoments(P, tree[Len(g[2])], Tail(loose))

RECURSIVE UnbranchMoments(_)
\* The old root is dropped, empty, when the new one is in its place.
UnbranchMoments(n) ==
    IF n.l > 0 /\ Len(n.c) = 1 THEN {Moment(n.c[1], {}, {})} \cup UnbranchMoments(n.c[1]) ELSE {}

RemoveMoments(P, root, k) ==
    LET r == RemoveIn(P, root, k) IN
    RemoveInMoments(P, root, k)
    \cup IF r.found = <<>> THEN {}
         ELSE Holding(ReinsertMoments(P, r.n, r.loose) \cup UnbranchMoments(Reinsert(P, r.n, r.loose)),
                      RangeOf(r.found))
=============================================================================
