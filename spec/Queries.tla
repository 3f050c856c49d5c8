------------------------------ MODULE Queries ------------------------------
(***************************************************************************)
(* The contract of queries on a tree (or two): filtered, ranked and        *)
(* joining iteration.  Queries do not change any tree; a step is only an   *)
(* operation record o holding the query, everything the library asked the  *)
(* user's filter or ranking, and everything that was yielded.              *)
(*                                                                         *)
(* None of this pins down the order in which groups are visited.           *)
(***************************************************************************)
EXTENDS RTree

NONE == -1   \* the metric None

---------------------------------------------------------------------------
(* Filters.  o.acc: the group bounds the filter accepts; o.mk: the keys it *)
(* accepts.  o.tb, o.tk: the bounds and entries it was asked about.        *)
(* o.res: the entries yielded.  o.end: the iteration ran to its end.       *)

\* The filter accepts all bounds that contain the box of a matching key.
Conservative(ctx, d, o) ==
    \A b \in NodeBounds(d[o.s].root) :
        (\E k \in RangeOf(o.mk) : BoxContains(b, ctx.keys[o.s][k]))
            => b \in RangeOf(o.acc)

\* What an iterator says about its length is true of its n items.  o.hints:
\* <<items yielded before, least number of further items, most of them or -1>>;
\* o.cnt: what count() said of such an iterator, or -1.
LengthsTrue(o, n) ==
    /\ \A h \in RangeOf(o.hints) : /\ (o.end => h[1] + h[2] <= n)
                                  /\ (h[3] = -1 \/ h[1] + h[3] >= n)
    /\ (o.cnt = -1 \/ ~o.end \/ o.cnt = n)

\* The same query drawn in another way, if it was: o.part.
PartTrue(o, all) == "part" \in DOMAIN o /\ o.part[1] # 0 => DrawnInPart(o.part, all)

Matching(d, o) == { e \in Contents(d[o.s]) : Kid(e) \in RangeOf(o.mk) }

C07(ctx, d, o, d1) ==
    IF o.op = "filter"
    THEN Clause("yields no entry twice", NoDup(o.res))
         \cup Clause("yields only matching entries",
                     RangeOf(o.res) \subseteq Matching(d, o))
         \cup Clause("yields every matching entry",
                     Conservative(ctx, d, o) /\ o.end
                        => Matching(d, o) \subseteq RangeOf(o.res))
         \cup Clause("count and size_hint are true", LengthsTrue(o, Len(o.res)))
         \cup Clause("entries may be skipped or the last one taken",
                     Conservative(ctx, d, o) => PartTrue(o, Matching(d, o)))
    ELSE {}

\* Join filters.  o.acc: the accepted pairs of group bounds, o.mk: the accepted
\* pairs of keys, o.tk: the pairs of entries that were tested.
PairAccepted(d, o, p) ==
    LET ls == LeafBoundsOf(d[o.s].root, p[1])
        rs == LeafBoundsOf(d[o.t].root, p[2])
    IN \E a \in ls : \E b \in rs : <<a, b>> \in RangeOf(o.acc)

C08(ctx, d, o, d1) ==
    IF o.op = "filter"
    THEN LET root == d[o.s].root
             acc == RangeOf(o.acc)
             reach == Reach(root, acc)
         IN Clause("tests no key inside a rejected group",
                   \A x \in RangeOf(o.tk) : \E e \in reach : SameKey(x, e))
            \cup Clause("yields nothing inside a rejected group",
                   RangeOf(o.res) \subseteq reach)
            \cup Clause("tests no group inside a rejected group",
                   d[o.s].it # <<>> =>
                      RangeOf(o.tb) \subseteq ReachBounds(root, acc))
    ELSE IF o.op \in {"join", "left_join"}
    THEN Clause("tests no pair of keys inside a rejected pair of groups",
                \A p \in RangeOf(o.tk) : PairAccepted(d, o, p))
    ELSE {}

---------------------------------------------------------------------------
(* Rankings.  o.rk[kid]: the metric of a key; o.bm: pairs <<bounds, lower  *)
(* bound>>; o.calls: the sequence of calls and yields,                     *)
(*   <<"b", bounds>>, <<"k", kid, ser>>, <<"y", kid, ser, vid>>.           *)

Bm(o, b) ==
    LET i == CHOOSE i \in DOMAIN o.bm : o.bm[i][1] = b IN o.bm[i][2]

BmDefined(o, b) == \E i \in DOMAIN o.bm : o.bm[i][1] = b

\* The ranking's lower bounds are valid for the boxes of the keys.
ValidRanking(ctx, d, o) ==
    \A i \in DOMAIN o.bm : \A e \in Contents(d[o.s]) :
        BoxContains(o.bm[i][1], ctx.keys[o.s][Kid(e)])
            => \/ o.rk[Kid(e)] = NONE
               \/ o.bm[i][2] # NONE /\ o.bm[i][2] <= o.rk[Kid(e)]

Yields(o) == SelectSeq(o.calls, LAMBDA c : c[1] = "y")
YieldedEntries(o) ==
    LET y == Yields(o) IN [i \in DOMAIN y |-> <<y[i][2], y[i][3], y[i][4]>>]

Candidates(d, o) == { e \in Contents(d[o.s]) : o.rk[Kid(e)] # NONE }

\* The i-th entry drawn in part has the metric of its position.
RankAgrees(o, cand, i) ==
    LET p == Seen(Cardinality(cand), o.part)[i]
        x == o.rk[Kid(o.part[4][i])]
    IN /\ Cardinality({ e \in cand : o.rk[Kid(e)] < x }) < p
       /\ p <= Cardinality({ e \in cand : o.rk[Kid(e)] <= x })

C09(ctx, d, o, d1) ==
    IF o.op = "rank"
    THEN LET y == YieldedEntries(o)
             m == [i \in DOMAIN y |-> o.rk[Kid(y[i])]]
             cand == Candidates(d, o)
         IN IF ~ValidRanking(ctx, d, o) THEN {"the recorded ranking is not valid"}
            ELSE
            Clause("yields no entry twice", NoDup(y))
            \cup Clause("yields only candidates", RangeOf(y) \subseteq cand)
            \cup Clause("in non-decreasing order",
                        \A i \in 1..(Len(m) - 1) : m[i] <= m[i + 1])
            \cup Clause("nothing smaller is left behind",
                        \A e \in cand \ RangeOf(y) :
                           ~o.end /\ \A i \in DOMAIN m : m[i] <= o.rk[Kid(e)])
            \cup Clause("a minimum query finds one if there is one",
                        o.minby => Len(y) = IF cand = {} THEN 0 ELSE 1)
            \cup Clause("count and size_hint are true", LengthsTrue(o, Len(y)))
            \cup Clause("entries may be skipped or the last one taken",
                        /\ PartTrue(o, cand)
                        /\ "part" \in DOMAIN o /\ o.part[1] # 0 =>
                             \A i \in DOMAIN o.part[4] : RankAgrees(o, cand, i))
    ELSE {}

RECURSIVE ReachLe(_, _, _)
\* Entries below groups whose lower bounds are all some number <= m.
ReachLe(n, o, m) ==
    LET x == Bm(o, n.b) IN
    IF x = NONE \/ x > m THEN {}
    ELSE IF n.l = 0 THEN RangeOf(n.e)
    ELSE UNION { ReachLe(n.c[i], o, m) : i \in DOMAIN n.c }

RECURSIVE ReachBoundsLe(_, _, _)
ReachBoundsLe(n, o, m) ==
    LET x == Bm(o, n.b) IN
    {n.b} \cup (IF x = NONE \/ x > m \/ n.l = 0 THEN {}
                ELSE UNION { ReachBoundsLe(n.c[i], o, m) : i \in DOMAIN n.c })

INFINITE == 1000000000

\* The metric of the next entry yielded at or after position i, if any.
RECURSIVE NextMetric(_, _)
NextMetric(o, i) ==
    IF i > Len(o.calls) THEN INFINITE
    ELSE IF o.calls[i][1] = "y" THEN o.rk[o.calls[i][2]]
    ELSE NextMetric(o, i + 1)

YieldPositions(o) == { i \in DOMAIN o.calls : o.calls[i][1] = "y" }

\* What was asked before a yield lies in groups that can matter for it.
LazyUpTo(d, o, i) ==
    LET m == IF i > Len(o.calls) THEN INFINITE ELSE o.rk[o.calls[i][2]]
        asked == SubSeq(o.calls, 1, i - 1)
        keys == { c \in RangeOf(asked) : c[1] = "k" }
        bnds == { c[2] : c \in { c \in RangeOf(asked) : c[1] = "b" } }
        root == d[o.s].root
        reach == ReachLe(root, o, m)
    IN /\ \A c \in keys : \E e \in reach :
             Kid(e) = c[2] /\ (Ser(e) = c[3] \/ c[3] = -1)
       /\ bnds \subseteq ReachBoundsLe(root, o, m)

C10(ctx, d, o, d1) ==
    IF o.op = "rank" /\ d[o.s].it # <<>>
    THEN Clause("every group shown to the ranking is a group of the tree",
                \A n \in NodeBounds(d[o.s].root) : BmDefined(o, n))
         \cup Clause("only opens groups that can matter before the next entry",
                \A i \in YieldPositions(o) \cup {Len(o.calls) + 1} : LazyUpTo(d, o, i))
    ELSE {}

---------------------------------------------------------------------------
(* Joins.  o.mk: the matching pairs of keys.  join: o.res is the sequence  *)
(* of pairs of entries yielded.  left_join: o.res[i] = <<left entry,       *)
(* right entries, end>>, where end says that the inner iterator was run    *)
(* to its end.                                                             *)

JoinConservative(ctx, d, o) ==
    \A a \in NodeBounds(d[o.s].root) : \A b \in NodeBounds(d[o.t].root) :
        (\E p \in RangeOf(o.mk) : BoxContains(a, ctx.keys[o.s][p[1]])
                               /\ BoxContains(b, ctx.keys[o.t][p[2]]))
            => <<a, b>> \in RangeOf(o.acc)

MatchingPairs(d, o) ==
    { p \in Contents(d[o.s]) \X Contents(d[o.t]) :
        <<Kid(p[1]), Kid(p[2])>> \in RangeOf(o.mk) }

C11(ctx, d, o, d1) ==
    IF o.op = "join"
    THEN IF ~JoinConservative(ctx, d, o) THEN {"the recorded join filter is not conservative"}
         ELSE Clause("yields no pair twice", NoDup(o.res))
              \cup Clause("yields only matching pairs",
                          RangeOf(o.res) \subseteq MatchingPairs(d, o))
              \cup Clause("yields every matching pair",
                          o.end => MatchingPairs(d, o) \subseteq RangeOf(o.res))
              \cup Clause("count and size_hint are true", LengthsTrue(o, Len(o.res)))
              \cup Clause("pairs may be skipped or the last one taken",
                          PartTrue(o, MatchingPairs(d, o)))
    ELSE {}

C12(ctx, d, o, d1) ==
    IF o.op = "left_join"
    THEN IF ~JoinConservative(ctx, d, o) THEN {"the recorded join filter is not conservative"}
         ELSE LET lefts == [i \in DOMAIN o.res |-> o.res[i][1]]
                  mk == RangeOf(o.mk)
                  match(e) == { f \in Contents(d[o.t]) : <<Kid(e), Kid(f)>> \in mk }
              IN Clause("yields no left entry twice", NoDup(lefts))
                 \cup Clause("yields only left entries",
                             RangeOf(lefts) \subseteq Contents(d[o.s]))
                 \cup Clause("yields every left entry",
                             o.end => Contents(d[o.s]) \subseteq RangeOf(lefts))
                 \cup Clause("an inner iterator yields no entry twice",
                             \A i \in DOMAIN o.res : NoDup(o.res[i][2]))
                 \cup Clause("an inner iterator yields only matching entries",
                             \A i \in DOMAIN o.res :
                                RangeOf(o.res[i][2]) \subseteq match(o.res[i][1]))
                 \cup Clause("an inner iterator yields every matching entry",
                             \A i \in DOMAIN o.res : o.res[i][3] =>
                                match(o.res[i][1]) \subseteq RangeOf(o.res[i][2]))
                 \cup Clause("entries may be skipped or the last one taken",
                             /\ PartTrue(o, Contents(d[o.s]))
                             /\ "inner" \in DOMAIN o => \A i \in DOMAIN o.inner :
                                  /\ o.inner[i][1] \in Contents(d[o.s])
                                  /\ DrawnInPart(o.inner[i][2], match(o.inner[i][1])))
    ELSE {}

---------------------------------------------------------------------------
(* C22: each thread sees what it would see alone.  Module Threads has the  *)
(* part that the compiler decides.                                         *)

C22(ctx, d, o, d1) ==
    UNION { C01(ctx, d, o, d1), C02(ctx, d, o, d1), C03(ctx, d, o, d1), C04(ctx, d, o, d1),
            C07(ctx, d, o, d1), C09(ctx, d, o, d1), C11(ctx, d, o, d1), C12(ctx, d, o, d1),
            C15(ctx, d, o, d1) }
    \cup (IF o.op = "look" THEN Clause("looking changes nothing", d1[o.s] = d[o.s]) ELSE {})

---------------------------------------------------------------------------
(* One property's clauses broken by a step.  A step on which the library   *)
(* panicked is allowed by no property.                                     *)

Violated(P, ctx, d, o, d1) ==
    IF o.op = "panic" THEN {"the operation panicked"}
    ELSE CASE P = "C01" -> C01(ctx, d, o, d1)
           [] P = "C02" -> C02(ctx, d, o, d1)
           [] P = "C03" -> C03(ctx, d, o, d1)
           [] P = "C04" -> C04(ctx, d, o, d1)
           [] P = "C05" -> C05(ctx, d, o, d1)
           [] P = "C06" -> C06(ctx, d, o, d1)
           [] P = "C07" -> C07(ctx, d, o, d1)
           [] P = "C08" -> C08(ctx, d, o, d1)
           [] P = "C09" -> C09(ctx, d, o, d1)
           [] P = "C10" -> C10(ctx, d, o, d1)
           [] P = "C11" -> C11(ctx, d, o, d1)
           [] P = "C12" -> C12(ctx, d, o, d1)
           [] P = "C13" -> C13(ctx, d, o, d1)
           [] P = "C15" -> C15(ctx, d, o, d1)
           [] P = "C22" -> C22(ctx, d, o, d1)
           [] OTHER -> {}

AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09",
             "C10", "C11", "C12", "C13", "C15"}

\* The step relation of the contract.
ContractStep(ctx, d, o, d1) == \A P \in AllProps : Violated(P, ctx, d, o, d1) = {}
=============================================================================
