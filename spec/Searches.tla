------------------------------ MODULE Searches ------------------------------
(***************************************************************************)
(* The design of the searches: filtered scan, ranked scan, join and left   *)
(* join, as state machines over stacks of groups that are still to be      *)
(* visited.  One step looks at one group, entry or pair, or moves to       *)
(* another level of a stack, as the iterators of the library do; a client  *)
(* may stop after any step.                                                *)
(*                                                                         *)
(* MCSearches lets TLC check every machine, over all small trees and all   *)
(* filters and rankings, against the contract (module Queries) and against *)
(* the assumptions that the code makes about levels (unsafe accesses).     *)
(*                                                                         *)
(* A machine is a record.  Stacks are functions from levels to sequences   *)
(* of what is left to visit; level 0 holds entries, level l > 0 nodes of   *)
(* level l - 1.  "trap" is set if the code would read past its types.      *)
(***************************************************************************)
EXTENDS RTreeAlgo, Queries

Stack(top) == [l \in 0..top |-> <<>>]

---------------------------------------------------------------------------
(* Filtered scan *)

ScanInit(d, f) ==
    LET root == d.root IN
    IF d.it = <<>> THEN [kind |-> "scan", st |-> <<>>, lv |-> 0, tb |-> {}, tk |-> {},
                         res |-> <<>>, trap |-> FALSE, done |-> TRUE]
    ELSE IF root.b \notin f.acc
    THEN [kind |-> "scan", st |-> <<>>, lv |-> 0, tb |-> {root.b}, tk |-> {},
          res |-> <<>>, trap |-> FALSE, done |-> TRUE]
    ELSE [kind |-> "scan", st |-> [Stack(root.l) EXCEPT ![root.l] = Items(root)], lv |-> 0,
          tb |-> {root.b}, tk |-> {}, res |-> <<>>, trap |-> FALSE, done |-> FALSE]

ScanStep(m, f) ==
    LET l == m.lv IN
    IF m.st[l] = <<>>
    THEN IF l + 1 \in DOMAIN m.st THEN [m EXCEPT !.lv = l + 1] ELSE [m EXCEPT !.done = TRUE]
    ELSE LET x == Head(m.st[l])
             rest == [m.st EXCEPT ![l] = Tail(@)]
         IN IF l = 0
            THEN [m EXCEPT !.st = rest, !.tk = @ \cup {<<Kid(x), Ser(x)>>},
                           !.res = IF Kid(x) \in f.mk THEN Append(@, x) ELSE @]
            ELSE IF x.b \in f.acc
            THEN [m EXCEPT !.st = [rest EXCEPT ![l - 1] = Items(x)], !.lv = l - 1,
                           !.tb = @ \cup {x.b}, !.trap = @ \/ x.l # l - 1]
            ELSE [m EXCEPT !.st = rest, !.tb = @ \cup {x.b}]

ScanQuery(m, f) ==
    [op |-> "filter", s |-> 0, acc |-> SetToSeq(f.acc), mk |-> SetToSeq(f.mk),
     tb |-> SetToSeq(m.tb), tk |-> SetToSeq(m.tk), res |-> m.res, end |-> m.done, cnt |-> -1, hints |-> << <<0, 0, -1>> >>]

---------------------------------------------------------------------------
(* Ranked scan: a heap of groups and entries.  Of those with the least     *)
(* metric one of the lowest level is taken, any of them.                   *)

RankPush(m, r, items, level) ==
    \* level: that of the items, 0 for entries.
    LET metric(x) == IF level = 0 THEN r.rk[Kid(x)] ELSE r.bm[x.b]
        call(x) == IF level = 0 THEN <<"k", Kid(x), Ser(x)>> ELSE <<"b", x.b>>
    IN [m EXCEPT !.heap = @ \cup { [m |-> metric(items[i]), l |-> level, x |-> items[i]] :
                                   i \in { i \in DOMAIN items : metric(items[i]) # NONE } },
                 !.calls = @ \o [i \in DOMAIN items |-> call(items[i])]]

RankInit(d, r) ==
    LET m == [kind |-> "rank", heap |-> {}, calls |-> <<>>, trap |-> FALSE, done |-> FALSE] IN
    IF d.it = <<>> THEN m ELSE RankPush(m, r, <<d.root>>, d.root.l + 1)

RankTop(m) == { h \in m.heap : \A g \in m.heap : h.m < g.m \/ (h.m = g.m /\ h.l <= g.l) }

RankSteps(m, r) ==
    IF m.heap = {} THEN { [m EXCEPT !.done = TRUE] }
    ELSE { LET n == [m EXCEPT !.heap = @ \ {h}] IN
           IF h.l = 0 THEN [n EXCEPT !.calls = Append(@, <<"y", Kid(h.x), Ser(h.x), Vid(h.x)>>)]
           ELSE RankPush([n EXCEPT !.trap = @ \/ h.x.l # h.l - 1], r, Items(h.x), h.l - 1)
         : h \in RankTop(m) }

RankQuery(m, r) ==
    [op |-> "rank", s |-> 0, rk |-> r.rk,
     bm |-> LET S == SetToSeq(DOMAIN r.bm) IN [i \in DOMAIN S |-> <<S[i], r.bm[S[i]]>>],
     calls |-> m.calls, end |-> m.done, minby |-> FALSE, cnt |-> -1, hints |-> << <<0, 0, -1>> >>]

---------------------------------------------------------------------------
(* Join: a stack of products.  A shorter tree is padded: its leaf nodes    *)
(* are met by all the lower groups of the taller one.                      *)

Product(s0, s1) ==
    FlattenSeq([j \in DOMAIN s1 |-> [i \in DOMAIN s0 |-> <<s0[i], s1[j]>>]])

\* n0, n1 are treated as nodes of levels l0, l1.
StartJoin(m, n0, l0, n1, l1) ==
    LET t == n0.l # l0 \/ n1.l # l1
        part(n, l) == IF l = 0 THEN <<n>> ELSE n.c
    IN [m EXCEPT !.trap = @ \/ t,
                 !.st = IF t THEN m.st
                        ELSE IF l0 = 0 /\ l1 = 0 THEN [@ EXCEPT ![0] = Product(n0.e, n1.e)]
                        ELSE [@ EXCEPT ![MaxOf(l0, l1)] = Product(part(n0, l0), part(n1, l1))]]

JoinInit(d0, d1, f) ==
    LET m == [kind |-> "join", st |-> <<>>, lv |-> 0, pad |-> <<0, 0>>, tk |-> {},
              res |-> <<>>, trap |-> FALSE, done |-> TRUE]
        r0 == d0.root
        r1 == d1.root
        top == MaxOf(r0.l, r1.l)
    IN IF d0.it = <<>> \/ d1.it = <<>> THEN m
       ELSE IF <<r0.b, r1.b>> \notin f.acc THEN m
       ELSE StartJoin([m EXCEPT !.done = FALSE, !.st = Stack(top),
                                !.pad = <<top - r0.l, top - r1.l>>], r0, r0.l, r1, r1.l)

JoinStep(m, f) ==
    LET l == m.lv IN
    IF m.st[l] = <<>>
    THEN IF l + 1 \in DOMAIN m.st THEN [m EXCEPT !.lv = l + 1] ELSE [m EXCEPT !.done = TRUE]
    ELSE LET x == Head(m.st[l])
             n == [m EXCEPT !.st = [@ EXCEPT ![l] = Tail(@)]]
         IN IF l = 0
            THEN [n EXCEPT !.tk = @ \cup {<<<<Kid(x[1]), Ser(x[1])>>, <<Kid(x[2]), Ser(x[2])>>>>},
                           !.res = IF <<Kid(x[1]), Kid(x[2])>> \in f.mk THEN Append(@, x) ELSE @]
            ELSE IF <<x[1].b, x[2].b>> \in f.acc
            THEN StartJoin([n EXCEPT !.lv = l - 1], x[1], MaxOf(l - 1 - m.pad[1], 0),
                           x[2], MaxOf(l - 1 - m.pad[2], 0))
            ELSE n

JoinQuery(m, f) ==
    [op |-> "join", s |-> 0, t |-> 1, acc |-> SetToSeq(f.acc), mk |-> SetToSeq(f.mk),
     tk |-> SetToSeq(m.tk), res |-> m.res, end |-> m.done,
     cnt |-> -1, hints |-> << <<0, 0, -1>> >>]

---------------------------------------------------------------------------
(* Left join.  The left tree is scanned; the right stack follows it to the *)
(* first group that a left group can match, and keeps what comes after.    *)
(* Every left entry gets a copy of what is left of the right stack, to be  *)
(* scanned with a filter for its key.  Right levels are <<items, next>>    *)
(* and can be rewound.                                                     *)

Fresh2(items) == <<items, 1>>
Remainder(r) == SubSeq(r[1], r[2], Len(r[1]))

LeftInit(d0, d1) ==
    LET r0 == d0.root
        r1 == d1.root
    IN [kind |-> "left_join",
        L |-> [l \in 0..(r0.l + 1) |-> IF l = r0.l + 1 /\ d0.it # <<>> THEN <<r0>> ELSE <<>>],
        R |-> [l \in 0..(r1.l + 1) |-> IF l = r1.l + 1 /\ d1.it # <<>> THEN Fresh2(<<r1>>)
                                       ELSE Fresh2(<<>>)],
        lv |-> 0, tk |-> {}, res |-> <<>>, trap |-> FALSE, done |-> FALSE]

RECURSIVE NextIn(_, _, _)
\* The next item of level lo in the levels lo..hi of L: <<L, item or none>>.
NextIn(L, lo, hi) ==
    LET busy == { l \in lo..hi : L[l] # <<>> } IN
    IF busy = {} THEN <<L, <<>>>>
    ELSE LET l == CHOOSE l \in busy : \A k \in busy : l <= k
             x == Head(L[l])
             M == [L EXCEPT ![l] = Tail(@)]
         IN IF l = lo THEN <<M, <<x>>>> ELSE NextIn([M EXCEPT ![l - 1] = x.c], lo, hi)

RECURSIVE FindIn(_, _, _, _)
\* Likewise in the levels of R, looking only at items with the bounds in ok.
FindIn(R, lo, hi, ok) ==
    LET first(l) == { i \in R[l][2]..Len(R[l][1]) : R[l][1][i].b \in ok } IN
    IF \A l \in lo..hi : first(l) = {}
    THEN << [l \in DOMAIN R |-> IF l \in lo..hi THEN <<R[l][1], Len(R[l][1]) + 1>> ELSE R[l]], <<>> >>
    ELSE LET l == CHOOSE l \in lo..hi : first(l) # {} /\ \A k \in lo..(l - 1) : first(k) = {}
             i == CHOOSE i \in first(l) : \A j \in first(l) : i <= j
             S == [k \in DOMAIN R |->
                     IF k = l THEN <<R[l][1], i + 1>>
                     ELSE IF k \in lo..(l - 1) THEN <<R[k][1], Len(R[k][1]) + 1>> ELSE R[k]]
             x == R[l][1][i]
         IN IF l = lo THEN <<S, <<x>>>> ELSE FindIn([S EXCEPT ![l - 1] = Fresh2(x.c)], lo, hi, ok)

RECURSIVE ScanAll(_, _)
ScanAll(m, f) == IF m.done THEN m ELSE ScanAll(ScanStep(m, f), f)

\* What the inner iterator of a left entry yields, and the entries it tests.
Inner(R, f, e) ==
    ScanAll([kind |-> "scan", st |-> [l \in DOMAIN R |-> Remainder(R[l])], lv |-> 0,
             tb |-> {}, tk |-> {}, res |-> <<>>, trap |-> FALSE, done |-> FALSE],
            [acc |-> { b \in f.rb : <<Kid(e), b>> \in f.kacc },
             mk |-> { k \in f.rk : <<Kid(e), k>> \in f.mk }])

LeftStep(m, f) ==
    LET topL == Cardinality(DOMAIN m.L) - 1
        topR == Cardinality(DOMAIN m.R) - 1
        height == MinOf(topL, topR) + 1
        l == m.lv
        hiL == IF l = topR THEN topL ELSE l
        hiR == IF l = topL THEN topR ELSE l
        ascend(n) ==
            IF l + 1 = height THEN [n EXCEPT !.done = TRUE]
            ELSE LET hi == IF l + 1 = topL THEN topR ELSE l + 1 IN
                 [n EXCEPT !.lv = l + 1,
                           !.R = [k \in DOMAIN @ |->
                                    IF k = hi THEN <<@[k][1], 1>>
                                    ELSE IF k \in (l + 1)..(hi - 1) THEN Fresh2(<<>>)
                                    ELSE @[k]]]
    IN IF l > 0
       THEN LET nl == NextIn(m.L, l, hiL) IN
            IF nl[2] = <<>> THEN ascend([m EXCEPT !.L = nl[1]])
            ELSE LET x == nl[2][1]
                     nr == FindIn(m.R, l, hiR, { b \in f.rb : <<x.b, b>> \in f.acc })
                     t == x.l # l - 1 \/ (nr[2] # <<>> /\ nr[2][1].l # l - 1)
                 IN IF t THEN [m EXCEPT !.trap = TRUE]
                    ELSE [m EXCEPT !.lv = l - 1,
                            !.L = [nl[1] EXCEPT ![l - 1] = Items(x)],
                            !.R = [nr[1] EXCEPT ![l - 1] =
                                     IF nr[2] = <<>> THEN Fresh2(<<>>) ELSE Fresh2(Items(nr[2][1]))]]
       ELSE IF m.L[0] = <<>> THEN ascend(m)
       ELSE LET e == Head(m.L[0])
                in == Inner(m.R, f, e)
            IN [m EXCEPT !.L = [@ EXCEPT ![0] = Tail(@)],
                         !.trap = @ \/ in.trap,
                         !.tk = @ \cup { <<<<Kid(e), Ser(e)>>, x>> : x \in in.tk },
                         !.res = Append(@, <<e, in.res, TRUE>>)]

LeftQuery(m, f) ==
    [op |-> "left_join", s |-> 0, t |-> 1, acc |-> SetToSeq(f.acc), mk |-> SetToSeq(f.mk),
     tk |-> SetToSeq(m.tk), res |-> m.res, end |-> m.done]
=============================================================================
