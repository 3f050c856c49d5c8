------------------------------- MODULE RTree -------------------------------
(***************************************************************************)
(* The contract of the R-tree map: which steps are allowed.                *)
(*                                                                         *)
(* State: d, a function from slots (tree variables of the client) to       *)
(* observed trees.  An observed tree is a record                           *)
(*    root : the structure (module Trees)                                  *)
(*    it   : the entries in iteration order, as iter() yields them         *)
(*    len, emp : what len() and is_empty() return                          *)
(*    cnt, hint : what count() and size_hint() say of an iteration; the    *)
(*           upper bound is -1 if there is none                            *)
(* A slot outside DOMAIN d holds no tree.                                  *)
(*                                                                         *)
(* A step is an operation record o (name o.op, slot o.s, arguments, result)*)
(* leading from d to d1.  The contract does not say how a tree is arranged *)
(* inside; it is nondeterministic in the structure and in the iteration    *)
(* order after an insertion or a removal.                                  *)
(*                                                                         *)
(* ctx carries the static part: ctx.keys[s][kid] is the box of a key,      *)
(* ctx.cfg[s] = <<max_children, min_children>>, ctx.tight[s] says that     *)
(* the union of the bounds type is exact.                                  *)
(*                                                                         *)
(* For each property P, Violated(P, ctx, d, o, d1) is the set of clauses   *)
(* of P that the step breaks.  Next holds iff no clause is broken.         *)
(***************************************************************************)
EXTENDS Trees, TLC

Clause(name, ok) == IF ok THEN {} ELSE {name}

Contents(t) == RangeOf(t.it)

---------------------------------------------------------------------------
(* C01: contents *)

SizesAgree(t) == t.len = Len(t.it) /\ t.emp = (Len(t.it) = 0)

\* What the iterators say about their length is true.
IterationSize(t) == /\ t.cnt = Len(t.it)
                    /\ t.hint[1] <= Len(t.it)
                    /\ (t.hint[2] = -1 \/ t.hint[2] >= Len(t.it))

\* Drawing a[2] of n items one by one, and then by nth(a[3]) and the rest
\* (a[1] = 1), last() (2) or every a[3]-th (3): the positions of those seen.
Seen(n, a) ==
    LET j == a[2]
        k == a[3]
    IN IF n <= j THEN [i \in 1..n |-> i]
       ELSE [i \in 1..j |-> i] \o
            (CASE a[1] = 1 -> [i \in 1..(IF n > j + k THEN n - j - k ELSE 0) |-> j + k + i]
               [] a[1] = 2 -> << n >>
               [] a[1] = 3 -> [i \in 1..((n - j + k - 1) \div k) |-> j + 1 + (i - 1) * k])

\* a[4]: what was seen.  In which order there is no telling, only how many.
DrawnInPart(a, all) ==
    /\ NoDup(a[4])
    /\ RangeOf(a[4]) \subseteq all
    /\ Len(a[4]) = Len(Seen(Cardinality(all), a))

Holds(t, S) == NoDup(t.it) /\ Contents(t) = S

Writes(o) == { <<o.wr[i][1], o.wr[i][2], o.wr[i][3]>> : i \in DOMAIN o.wr }
Written(o) == { <<o.wr[i][1], o.wr[i][2], o.wr[i][4]>> : i \in DOMAIN o.wr }

C01(ctx, d, o, d1) ==
    LET s == o.s IN
    (CASE o.op = "insert" ->
            Clause("insert adds exactly the new entry",
                   Holds(d1[s], Contents(d[s]) \cup {o.e}))
       [] o.op = "insert_unique" ->
            Clause("insert_unique adds the entry or replaces one value",
                   LET same == { x \in Contents(d[s]) : Kid(x) = Kid(o.e) } IN
                   IF same = {} THEN Holds(d1[s], Contents(d[s]) \cup {o.e})
                   ELSE \E x \in same :
                          Holds(d1[s], (Contents(d[s]) \ {x})
                                       \cup {<<Kid(x), Ser(x), Vid(o.e)>>}))
       [] o.op = "remove" ->
            Clause("remove takes away one entry with the key, or nothing",
                   LET same == { x \in Contents(d[s]) : Kid(x) = o.k } IN
                   IF same = {} THEN Holds(d1[s], Contents(d[s]))
                   ELSE \E x \in same : Holds(d1[s], Contents(d[s]) \ {x}))
       [] o.op = "write" ->
            Clause("a write changes only the written values",
                   Holds(d1[s], (Contents(d[s]) \ Writes(o)) \cup Written(o)))
       [] o.op = "clone" ->
            Clause("a clone has the same entries",
                   o.to \in DOMAIN d1 /\ Holds(d1[o.to], Contents(d[s])))
       [] OTHER -> {})
    \cup
    Clause("other contents unchanged",
           \A t \in DOMAIN d \cap DOMAIN d1 :
              \/ t = s /\ o.op \in {"insert", "insert_unique", "remove", "write"}
              \/ o.op = "twin" /\ t \in {o.s, o.t}
              \/ Contents(d1[t]) = Contents(d[t]))
    \cup
    Clause("full iteration yields each entry once",
           \A t \in DOMAIN d1 : NoDup(d1[t].it))
    \cup
    Clause("iteration agrees with the stored entries",
           \A t \in DOMAIN d1 : RangeOf(Entries(d1[t].root)) = Contents(d1[t]))
    \cup
    Clause("len and is_empty agree with the contents",
           \A t \in DOMAIN d1 : SizesAgree(d1[t]))
    \cup
    Clause("count and size_hint of an iteration agree with the contents",
           \A t \in DOMAIN d1 : IterationSize(d1[t]))
    \cup
    Clause("entries may be skipped or the last one taken",
           "parts" \in DOMAIN o =>
              \A i \in DOMAIN o.parts :
                 DrawnInPart(o.parts[i][2], Contents(d1[o.parts[i][1]])))

---------------------------------------------------------------------------
(* C02: lookup.  Several lookups may be recorded in one step:              *)
(* o.gets[i] = <<kid, result>>, a result is <<>> or <<vid>>.               *)

LookupResult(t, k) ==
    LET p == FirstPos(t.it, k) IN IF p = 0 THEN <<>> ELSE << Vid(t.it[p]) >>

C02(ctx, d, o, d1) ==
    IF o.op = "get"
    THEN Clause("lookup returns the value of the first equal entry",
                \A i \in DOMAIN o.gets :
                   o.gets[i][2] = LookupResult(d[o.s], o.gets[i][1]))
         \cup Clause("lookup changes nothing", d1 = d)
    ELSE {}

---------------------------------------------------------------------------
(* C03: insert_unique *)

C03(ctx, d, o, d1) ==
    IF o.op = "insert_unique"
    THEN LET s == o.s
             p == FirstPos(d[s].it, Kid(o.e))
         IN IF p = 0
            THEN Clause("absent key: returns None", o.res = <<>>)
                 \cup Clause("absent key: adds the entry",
                             Holds(d1[s], Contents(d[s]) \cup {o.e}))
            ELSE LET old == d[s].it[p]
                     new == <<Kid(old), Ser(old), Vid(o.e)>>
                     f == [x \in Contents(d[s]) |-> IF x = old THEN new ELSE x]
                 IN Clause("present key: returns the previous value of the first entry",
                           o.res = <<Vid(old)>>)
                    \cup Clause("present key: replaces exactly that value",
                                d1[s].it = [d[s].it EXCEPT ![p] = new])
                    \cup Clause("present key: changes nothing else",
                                d1[s].root = MapEntries(d[s].root, f))
    ELSE {}

---------------------------------------------------------------------------
(* C04: remove.  o.gets records lookups of every key afterwards.           *)

C04(ctx, d, o, d1) ==
    IF o.op = "remove"
    THEN LET s == o.s
             p == FirstPos(d[s].it, o.k)
         IN (IF p = 0
             THEN Clause("absent key: returns None", o.res = <<>>)
                  \cup Clause("absent key: tree unchanged", d1[s] = d[s])
             ELSE LET e == d[s].it[p]
                  IN Clause("returns the value of the first equal entry",
                            o.res = <<Vid(e)>>)
                     \cup Clause("removes exactly the first equal entry",
                                 Holds(d1[s], Contents(d[s]) \ {e})))
            \cup Clause("the remaining entries can be found",
                   \A i \in DOMAIN o.gets :
                      o.gets[i][2] = LookupResult(d1[s], o.gets[i][1]))
    ELSE {}

---------------------------------------------------------------------------
(* C05, C06: structure.  o.shown: the bounds shown to a filter that        *)
(* accepts everything.                                                     *)

Changed(d, o, d1) == { t \in DOMAIN d1 : t \notin DOMAIN d \/ d1[t] # d[t] \/ o.op = "init" }

C05(ctx, d, o, d1) ==
    Clause("bounds contain everything below",
           \A t \in Changed(d, o, d1) : Covers(d1[t].root, ctx.keys[t]))
    \cup Clause("bounds are least",
           \A t \in Changed(d, o, d1) :
              ctx.tight[t] => Tight(d1[t].root, ctx.keys[t]))
    \cup (IF o.op = "shown"
          THEN Clause("the bounds shown to filters and rankings are those of the groups",
                      IF d[o.s].it = <<>>
                      THEN \A b \in RangeOf(o.shown) : EmptyBox(b)
                      ELSE RangeOf(o.shown) = NodeBounds(d[o.s].root))
          ELSE {})

C06(ctx, d, o, d1) ==
    Clause("all entries at the same depth",
           \A t \in Changed(d, o, d1) : Balanced(d1[t].root))
    \cup Clause("node sizes within the limits",
           \A t \in Changed(d, o, d1) : WellSized(d1[t].root, ctx.cfg[t]))

---------------------------------------------------------------------------
(* C13: in-place mutation.  o.wr lists what was handed out, in order:      *)
(* <<kid, ser, old vid, new vid>>; o.cov is <<"all">>, <<"kids", set>>     *)
(* (entries whose key is in the list), <<"first", k>> (get_mut), <<"one",    *)
(* kids>> (one with such a key), <<"some">> (an iteration that was cut     *)
(* short) or <<"part", a, cov>> (drawn in part, see Seen).                 *)

Covered(t, cov) ==
    CASE cov[1] = "all" -> Contents(t)
      [] cov[1] = "kids" -> { e \in Contents(t) : Kid(e) \in RangeOf(cov[2]) }
      [] cov[1] = "first" ->
            LET p == FirstPos(t.it, cov[2]) IN IF p = 0 THEN {} ELSE { t.it[p] }

C13(ctx, d, o, d1) ==
    IF o.op = "write"
    THEN LET s == o.s
             handed == [i \in DOMAIN o.wr |-> <<o.wr[i][1], o.wr[i][2], o.wr[i][3]>>]
             f == [x \in Contents(d[s]) |->
                     IF \E i \in DOMAIN o.wr : handed[i] = x
                     THEN LET i == CHOOSE i \in DOMAIN o.wr : handed[i] = x
                          IN <<Kid(x), Ser(x), o.wr[i][4]>>
                     ELSE x]
         IN Clause("hands out stored entries, each once",
                   NoDup(handed) /\ RangeOf(handed) \subseteq Contents(d[s]))
            \cup Clause("hands out exactly the covered entries",
                   IF o.cov[1] = "one"  \* a minimal-metric query: one or no entry
                   THEN Len(handed) = (IF \E e \in Contents(d[s]) : Kid(e) \in RangeOf(o.cov[2])
                                       THEN 1 ELSE 0)
                        /\ \A i \in DOMAIN handed : Kid(handed[i]) \in RangeOf(o.cov[2])
                   ELSE IF o.cov[1] = "some" THEN TRUE
                   ELSE IF o.cov[1] = "part"
                   THEN LET all == Covered(d[s], o.cov[3]) IN
                        /\ RangeOf(handed) \subseteq all
                        /\ Len(handed) = Len(Seen(Cardinality(all), o.cov[2]))
                   ELSE RangeOf(handed) = Covered(d[s], o.cov))
            \cup Clause("the distinct values can be held at once", o.distinct)
            \cup Clause("later accesses find the written values, all else stays",
                   IF NoDup(handed) /\ RangeOf(handed) \subseteq Contents(d[s])
                   THEN /\ d1[s].root = MapEntries(d[s].root, f)
                        /\ d1[s].it = [i \in DOMAIN d[s].it |-> f[d[s].it[i]]]
                   ELSE TRUE)
            \cup Clause("lookups find the written values",
                   \A i \in DOMAIN o.gets :
                      o.gets[i][2] = LookupResult(d1[s], o.gets[i][1]))
    ELSE {}

---------------------------------------------------------------------------
(* C15: clones.  o.gens: how often a key or value of the original and that  *)
(* of the clone has been cloned in its life.                               *)

C15(ctx, d, o, d1) ==
    Clause("no operation on a tree is visible in another",
           \A t \in DOMAIN d \cap DOMAIN d1 :
              \/ t = o.s /\ o.op \notin {"clone", "get", "drop", "shown"}
              \/ o.op = "twin" /\ t = o.t
              \/ d1[t] = d[t])
    \cup
    (IF o.op = "clone"
     THEN Clause("a clone is arranged like the original",
                 /\ o.to \in DOMAIN d1
                 /\ d1[o.to].root = d[o.s].root
                 /\ d1[o.to].it = d[o.s].it
                 /\ SizesAgree(d1[o.to]))
          \cup Clause("the keys and values of a clone are clones",
                 \A g \in RangeOf(o.gens) : g[1] < g[2])
          \cup Clause("cloning leaves the original as it was", d1[o.s] = d[o.s])
     ELSE {})
    \cup
    (IF o.op \in {"insert", "insert_unique", "remove"} /\ o.s \in RangeOf(ctx.clones)
     THEN \* a clone goes on working with the configuration of the original
          Clause("a clone keeps the configuration",
                 WellSized(d[o.s].root, ctx.cfg[o.s])
                    => WellSized(d1[o.s].root, ctx.cfg[o.s]))
     ELSE {})
    \cup
    (IF o.op = "twin"  \* the same operation on two trees of one configuration
     THEN Clause("trees that are arranged alike behave alike",
                 d[o.s] = d[o.t] => d1[o.s] = d1[o.t] /\ o.res[1] = o.res[2])
     ELSE {})
=============================================================================
