-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* The contract of trees with very many entries.                           *)
(*                                                                         *)
(* The keys are divided into classes; size[c] is the number of the (different) *)
(* keys of class c, which are numbered from 0.  A step does the same to    *)
(* every key of a class, in any order, so that all keys of a class are     *)
(* alike between steps: the state of a tree says for each class how many   *)
(* entries each of its keys has.  This is a quotient of the contract RTree *)
(* (MCBulk checks that), small for trees of any size.                      *)
(*                                                                         *)
(*   d : tree -> class -> [n, m]                                           *)
(*      n  how many entries each key of the class has                      *)
(*      m  the mark that all their values carry, or MIXED                  *)
(*                                                                         *)
(* A step is a record o:                                                   *)
(*   o.op, o.s, o.t, o.c   the operation, its trees, its class             *)
(*   o.ret                 "ok" or "panic"                                 *)
(*   o.some                how many calls returned a value (a reference)   *)
(*   o.odd                 how many of the values were of other keys, or   *)
(*                         carried another mark than the tree's            *)
(*   o.seen                what an iteration yielded: for every class or   *)
(*                         pair of classes that was asked for              *)
(*                         [c, lo, hi, min, max]: keys lo..hi of class c   *)
(*                         were yielded at least min, at most max times    *)
(*   o.rest                how much else it yielded                        *)
(*   o.mark                the mark it wrote to them                       *)
(*   o.down                how often a ranked iteration went down          *)
(*   o.first               whether min_by gave the metric of its first     *)
(*   o.hash                (clone) digests of the structure of both trees     *)
(*   o.root, o.keys, o.cfg (shape) the structure of a tree at some moment,  *)
(*                         as in Trees                                     *)
(*   o.all                 what all trees contain afterwards: for each     *)
(*                         [s, len, empty, cnt, odd, cls], where cls says  *)
(*                         for each class [min, max, mmin, mmax]           *)
(***************************************************************************)
EXTENDS Trees, TLC

MIXED == -1
Clause(name, ok) == IF ok THEN {} ELSE {name}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Nothing(size) == [c \in DOMAIN size |-> [n |-> 0, m |-> 0]]

\* One more entry for each key, with the mark 0.
More(x) == [n |-> x.n + 1, m |-> IF x.n = 0 \/ x.m = 0 THEN 0 ELSE MIXED]
Less(x) == IF x.n <= 1 THEN [n |-> 0, m |-> 0] ELSE [x EXCEPT !.n = @ - 1]
\* One of the entries of each key gets a value with the mark 0.
Fresh(x) == IF x.n = 0 THEN More(x) ELSE [x EXCEPT !.m = IF x.n = 1 \/ x.m = 0 THEN 0 ELSE MIXED]

After(size, d, o) ==
    CASE o.op = "new" -> (o.s :> Nothing(size)) @@ d
      [] o.op = "insert" -> [d EXCEPT ![o.s][o.c] = More(@)]
      [] o.op = "unique" -> [d EXCEPT ![o.s][o.c] = Fresh(@)]
      [] o.op = "remove" -> [d EXCEPT ![o.s][o.c] = Less(@)]
      [] o.op = "mark" -> [d EXCEPT ![o.s] = [c \in DOMAIN @ |->
            IF \E i \in DOMAIN o.seen : o.seen[i].c = c /\ @[c].n > 0 THEN [@[c] EXCEPT !.m = o.mark] ELSE @[c]]]
      [] o.op = "clone" -> (o.t :> d[o.s]) @@ d
      [] o.op = "drop" -> [s \in DOMAIN d \ {o.s} |-> d[s]]
      [] OTHER -> d

Len2(size, t) == SumSeq([c \in DOMAIN size |-> size[c] * t[c].n])

\* What is seen of a tree is what it contains.
Shows(size, t, a) ==
    /\ a.len = Len2(size, t) /\ a.cnt = a.len /\ a.empty = (a.len = 0) /\ a.odd = 0
    /\ \A c \in DOMAIN size :
          /\ a.cls[c][1] = t[c].n /\ a.cls[c][2] = t[c].n
          /\ (t[c].n > 0 /\ t[c].m # MIXED) => (a.cls[c][3] = t[c].m /\ a.cls[c][4] = t[c].m)

All(size, d, o, S) ==
    \A s \in S : \E i \in DOMAIN o.all : o.all[i].s = s /\ Shows(size, d[s], o.all[i])

\* Each key asked for is yielded as often as it is there, and nothing else is.
Exactly(d, o) ==
    /\ o.rest = 0
    /\ \A i \in DOMAIN o.seen : LET e == o.seen[i] IN
          e.lo <= e.hi => (e.min = d[o.s][e.c].n /\ e.max = e.min)
\* The same of pairs of entries with equal numbers.
Pairs(d, o) ==
    /\ o.rest = 0
    /\ \A i \in DOMAIN o.seen : LET e == o.seen[i] IN
          e.lo <= e.hi => (e.min = d[o.s][e.c].n * d[o.t][e.c2].n /\ e.max = e.min)
\* The outer half of a left join.
Outer(d, o) ==
    \A i \in DOMAIN o.outer : LET e == o.outer[i] IN e.min = d[o.s][e.c].n /\ e.max = e.min

Hits(size, d, o) == o.some = (IF d[o.s][o.c].n > 0 THEN size[o.c] ELSE 0) /\ o.odd = 0

Ops == [C01 |-> {"new", "insert", "unique", "remove", "clone", "drop", "mark"}, C02 |-> {"get"}, C03 |-> {"unique"},
        C04 |-> {"remove"}, C05 |-> {"shape"}, C06 |-> {"shape"}, C07 |-> {"filter"}, C09 |-> {"ranked"}, C11 |-> {"join"}, C12 |-> {"left_join"},
        C13 |-> {"mark"}, C15 |-> {"clone"},
        C21 |-> {"new", "insert", "unique", "remove", "clone", "drop", "mark", "get", "filter", "ranked", "join", "left_join"}]

Violated(p, size, d, o) ==
    LET d1 == After(size, d, o)
        changed == IF o.op = "clone" THEN {o.t} ELSE {o.s}
    IN IF o.op \notin Ops[p] THEN {}
       ELSE IF o.ret # "ok" THEN {"it panics"}
       ELSE CASE p = "C01" -> Clause("the contents are not what was put in", All(size, d1, o, DOMAIN d1))
              [] p = "C02" -> Clause("lookups disagree with the contents", Hits(size, d, o))
              [] p = "C03" -> Clause("an equal key is or is not there", Hits(size, d, o))
                              \cup Clause("insert_unique does not replace one value", All(size, d1, o, {o.s}))
              [] p = "C04" -> Clause("removal fails or succeeds wrongly", Hits(size, d, o))
                              \cup Clause("removal does not take one entry", All(size, d1, o, {o.s}))
              [] p = "C07" -> Clause("filtered iteration is not exact", Exactly(d, o))
              [] p = "C09" -> Clause("ranked iteration is not exact", Exactly(d, o))
                              \cup Clause("ranked iteration is not in order", o.down = 0)
                              \cup Clause("min_by is not the first of the ranked iteration", o.first)
              [] p = "C11" -> Clause("the join is not exact", Pairs(d, o))
              [] p = "C12" -> Clause("the left join is not exact", Pairs(d, o) /\ Outer(d, o))
              [] p = "C13" -> Clause("mutable iteration is not exact", Exactly(d, o))
                              \cup Clause("the written values are not there", All(size, d1, o, {o.s}))
              [] p = "C15" -> Clause("a clone is not what was cloned", All(size, d1, o, DOMAIN d1))
                              \cup Clause("a clone is arranged otherwise", o.hash[1] = o.hash[2])
              [] p = "C05" -> Clause("bounds contain everything below", Covers(o.root, o.keys))
                              \cup Clause("bounds are least", Tight(o.root, o.keys))
              [] p = "C06" -> Clause("all entries at the same depth", Balanced(o.root))
                              \cup Clause("node sizes within the limits", WellSized(o.root, o.cfg))
              [] OTHER -> {}
=============================================================================
