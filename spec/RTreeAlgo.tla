------------------------------ MODULE RTreeAlgo ------------------------------
(***************************************************************************)
(* The algorithm of the library: how a tree is rearranged by insert,       *)
(* insert_unique and remove, down to the order of children.                *)
(*                                                                         *)
(* The contract (module RTree) allows any arrangement that keeps the       *)
(* promises; this module is the deterministic design that has to refine    *)
(* it.  MCRTree checks that it does, and MCRTree's behaviours are replayed *)
(* in the real code; TraceAlgo compares recorded arrangements with the     *)
(* ones computed here.                                                     *)
(*                                                                         *)
(* P = [keys, max, min]: the boxes of the keys and the configuration.      *)
(* An item is an entry (below a leaf) or a node (below an inner node).     *)
(* Nodes are the records of module Trees.                                  *)
(***************************************************************************)
EXTENDS Trees

Items(n) == IF n.l = 0 THEN n.e ELSE n.c

Node(l, b, items) ==
    [b |-> b, l |-> l, c |-> IF l = 0 THEN <<>> ELSE items,
     e |-> IF l = 0 THEN items ELSE <<>>]

\* The bounds of an item of a node of level l.
BoundsOf(P, l, x) == IF l = 0 THEN P.keys[Kid(x)] ELSE x.b

\* The identity of union: what a tree without entries has for bounds.
Nothing(P) == LET D == Dims(P.keys[1]) IN << [i \in D |-> P.top], [i \in D |-> P.bottom] >>

UnionAll(P, l, items) ==
    FoldLeft(LAMBDA acc, x : BoxUnion(acc, BoundsOf(P, l, x)), Nothing(P), items)

NewTree(P) == Node(0, Nothing(P), <<>>)

Grows(b, more) == BoxVolume(BoxUnion(b, more)) - BoxVolume(b)

\* The first index of s with a minimal (maximal) value.
FirstMin(s) == CHOOSE i \in DOMAIN s :
    /\ \A j \in DOMAIN s : s[i] <= s[j]
    /\ \A j \in 1..(i - 1) : s[j] > s[i]
FirstMax(s) == CHOOSE i \in DOMAIN s :
    /\ \A j \in DOMAIN s : s[i] >= s[j]
    /\ \A j \in 1..(i - 1) : s[j] < s[i]

SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
\* Removal that fills the gap with the last item.
SwapRemove(s, i) == SubSeq(SwapAt(s, i, Len(s)), 1, Len(s) - 1)

---------------------------------------------------------------------------
(* Splitting a full node: quadratic, after Guttman *)

\* The pairs of seeds to choose from, in order: every item with the
\* overflowing one, then every two items.
SeedPairs(m) ==
    [i \in 1..m |-> <<i, m + 1>>] \o
    FlattenSeq([i \in 1..(m - 1) |-> [j \in 1..(m - i) |-> <<i, i + j>>]])

Seeds(P, l, items, over) ==
    LET m == Len(items)
        pairs == SeedPairs(m)
        bo == BoundsOf(P, l, over)
        wasted == [p \in DOMAIN pairs |->
            LET a == BoundsOf(P, l, items[pairs[p][1]]) IN
            BoxVolume(IF pairs[p][2] > m THEN BoxUnion(a, bo)
                      ELSE BoxUnion(a, BoxUnion(BoundsOf(P, l, items[pairs[p][2]]), bo)))]
    IN pairs[FirstMax(wasted)]

RECURSIVE Distribute(_, _, _, _, _, _, _)
\* vals[1..n1] is the first group, the rest of vals is still to be given away.
Distribute(P, l, vals, n1, g2, b1, b2) ==
    IF n1 >= Len(vals) THEN [g1 |-> vals, b1 |-> b1, g2 |-> g2, b2 |-> b2]
    ELSE LET left == Len(vals) - n1
             rest == SubSeq(vals, n1 + 1, Len(vals))
             inc(b) == [i \in DOMAIN rest |-> Grows(b, BoundsOf(P, l, rest[i]))]
             i1 == inc(b1)
             i2 == inc(b2)
             c1 == FirstMin(i1)
             c2 == FirstMin(i2)
             first == IF i1[c1] < i2[c2] THEN Len(g2) + left > P.min
                                         ELSE n1 + left = P.min
         IN IF first
            THEN Distribute(P, l, SwapAt(vals, n1 + c1, n1 + 1), n1 + 1, g2,
                            BoxUnion(b1, BoundsOf(P, l, rest[c1])), b2)
            ELSE Distribute(P, l, SwapRemove(vals, n1 + c2), n1,
                            Append(g2, rest[c2]), b1,
                            BoxUnion(b2, BoundsOf(P, l, rest[c2])))

Split(P, l, items, over) ==
    LET s == Seeds(P, l, items, over)
        v1 == SwapAt(items, 1, s[1])
        into == s[2] <= Len(items)
        v2 == IF into THEN [v1 EXCEPT ![s[2]] = over] ELSE v1
        seed == IF into THEN v1[s[2]] ELSE over
    IN Distribute(P, l, v2, 1, <<seed>>, BoundsOf(P, l, v2[1]), BoundsOf(P, l, seed))

---------------------------------------------------------------------------
(* Insertion.  Results are <<node, siblings>>, where siblings holds the     *)
(* other half of a node that was split, if it was.                          *)

AddItem(P, n, x) ==
    IF Len(Items(n)) < P.max
    THEN << Node(n.l, BoxUnion(n.b, BoundsOf(P, n.l, x)), Append(Items(n), x)), <<>> >>
    ELSE LET s == Split(P, n.l, Items(n), x)
         IN << Node(n.l, s.b1, s.g1), << Node(n.l, s.b2, s.g2) >> >>

\* The child that grows least, of those the smallest, of those the first.
Select(n, b) ==
    LET g == [i \in DOMAIN n.c |-> Grows(n.c[i].b, b)]
        v == [i \in DOMAIN n.c |-> BoxVolume(n.c[i].b)]
        before(i, j) == g[i] < g[j] \/ (g[i] = g[j] /\ (v[i] < v[j] \/ (v[i] = v[j] /\ i < j)))
    IN CHOOSE i \in DOMAIN n.c : \A j \in DOMAIN n.c \ {i} : before(i, j)

\* After the child at i has become r[1] with siblings r[2].
Regrow(P, n, i, r, b) ==
    LET cs == [n.c EXCEPT ![i] = r[1]] IN
    IF r[2] = <<>> THEN << Node(n.l, BoxUnion(n.b, b), cs), <<>> >>
    ELSE AddItem(P, Node(n.l, UnionAll(P, n.l, cs), cs), r[2][1])

RECURSIVE Insert(_, _, _, _)
\* Inserts an item into a node of level at (or below that node).
Insert(P, n, at, x) ==
    IF n.l = at THEN AddItem(P, n, x)
    ELSE LET b == BoundsOf(P, at, x)
             i == Select(n, b)
         IN Regrow(P, n, i, Insert(P, n.c[i], at, x), b)

Branch(r) ==
    IF r[2] = <<>> THEN r[1]
    ELSE Node(r[1].l + 1, BoxUnion(r[1].b, r[2][1].b), <<r[1], r[2][1]>>)

InsertEntry(P, root, e) == Branch(Insert(P, root, 0, e))

---------------------------------------------------------------------------
(* Unique insertion: results are <<node, siblings, previous value>>. *)

RECURSIVE Find(_, _, _)
\* The path (child indices, then entry index) to the first entry with key k
\* in groups whose bounds contain the key's, or <<>>.
Find(P, n, k) ==
    IF n.l = 0
    THEN LET p == FirstPos(n.e, k) IN IF p = 0 THEN <<>> ELSE <<p>>
    ELSE LET hits == { i \in DOMAIN n.c :
                        BoxContains(n.c[i].b, P.keys[k]) /\ Find(P, n.c[i], k) # <<>> }
         IN IF hits = {} THEN <<>>
            ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
                 IN <<i>> \o Find(P, n.c[i], k)

RECURSIVE EntryAt(_, _)
EntryAt(n, path) ==
    IF n.l = 0 THEN n.e[path[1]] ELSE EntryAt(n.c[path[1]], Tail(path))

RECURSIVE PutAt(_, _, _)
PutAt(n, path, v) ==
    IF n.l = 0 THEN [n EXCEPT !.e[path[1]] = <<Kid(@), Ser(@), v>>]
    ELSE [n EXCEPT !.c[path[1]] = PutAt(@, Tail(path), v)]

RECURSIVE InsertU(_, _, _)
InsertU(P, n, e) ==
    LET k == Kid(e)
        b == P.keys[k]
        overwrite == LET p == Find(P, n, k) IN
            IF p = <<>> THEN LET r == Insert(P, n, 0, e) IN <<r[1], r[2], <<>>>>
            ELSE << PutAt(n, p, Vid(e)), <<>>, <<Vid(EntryAt(n, p))>> >>
    IN IF n.l = 0 THEN overwrite
       ELSE LET in == { i \in DOMAIN n.c : BoxContains(n.c[i].b, b) } IN
            IF Cardinality(in) # 1 THEN overwrite
            ELSE LET i == CHOOSE i \in in : TRUE
                     r == InsertU(P, n.c[i], e)
                     g == Regrow(P, n, i, <<r[1], r[2]>>, b)
                 IN << g[1], g[2], r[3] >>

InsertUnique(P, root, e) ==
    LET r == InsertU(P, root, e) IN [root |-> Branch(<<r[1], r[2]>>), res |-> r[3]]

---------------------------------------------------------------------------
(* Removal.  A child left with too few items is dissolved; its items are   *)
(* inserted again, those of the lowest level first.                        *)

Least(P) == MaxOf(P.min, 1)

RECURSIVE RemoveIn(_, _, _)
\* [n, found, loose]: loose[j] = <<level, items>> of the dissolved nodes,
\* from the lowest level upwards.  found holds the removed entry, if any.
RemoveIn(P, n, k) ==
    IF n.l = 0
    THEN LET p == FirstPos(n.e, k) IN
         IF p = 0 THEN [n |-> n, found |-> <<>>, loose |-> <<>>]
         ELSE LET es == SwapRemove(n.e, p)
              IN [n |-> Node(0, UnionAll(P, 0, es), es), found |-> <<n.e[p]>>,
                  loose |-> <<>>]
    ELSE LET try(i) == RemoveIn(P, n.c[i], k)
             hits == { i \in DOMAIN n.c : BoxMeets(n.c[i].b, P.keys[k]) /\ try(i).found # <<>> }
         IN IF hits = {} THEN [n |-> n, found |-> <<>>, loose |-> <<>>]
            ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
                     r == try(i)
                     few == Len(Items(r.n)) < Least(P)
                     cs == IF few THEN SwapRemove(n.c, i) ELSE [n.c EXCEPT ![i] = r.n]
                 IN [n |-> Node(n.l, UnionAll(P, n.l, cs), cs), found |-> r.found,
                     loose |-> IF few THEN Append(r.loose, <<r.n.l, Items(r.n)>>)
                                      ELSE r.loose]

Reinsert(P, root, loose) ==
    FoldLeft(LAMBDA t, g :
                FoldLeft(LAMBDA u, x : Branch(Insert(P, u, g[1], x)), t, g[2]),
             root, loose)

RECURSIVE Unbranch(_)
Unbranch(n) == IF n.l > 0 /\ Len(n.c) = 1 THEN Unbranch(n.c[1]) ELSE n

RemoveEntry(P, root, k) ==
    LET r == RemoveIn(P, root, k) IN
    IF r.found = <<>> THEN [root |-> root, res |-> <<>>]
    ELSE [root |-> Unbranch(Reinsert(P, r.n, r.loose)), res |-> <<Vid(r.found[1])>>]
=============================================================================
