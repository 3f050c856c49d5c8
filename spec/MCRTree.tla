------------------------------ MODULE MCRTree ------------------------------
(***************************************************************************)
(* The design (RTreeAlgo) refines the contract (RTree).                    *)
(*                                                                         *)
(* Every history of insert, insert_unique, remove, value writes, clone and *)
(* drop over a few keys with at most N entries per tree.  Entries are      *)
(* numbered with the smallest free number, so that the state space is      *)
(* finite and every history of any length is covered.                      *)
(***************************************************************************)
EXTENDS RTreeAlgo, Queries

CONSTANTS Boxes,   \* the boxes of the keys (a sequence)
          MaxC, MinC, N,
          Slots,   \* number of tree variables: 1, or 2 to have clones
          Unique   \* TRUE: only insert_unique inserts

\* Some sets of keys: intervals, and boxes in the plane.
Line4 == << << <<0>>, <<1>> >>, << <<2>>, <<4>> >>, << <<1>>, <<3>> >>, << <<6>>, <<6>> >> >>
Nest5 == << << <<0>>, <<10>> >>, << <<2>>, <<3>> >>, << <<2>>, <<4>> >>, << <<9>>, <<10>> >>, << <<0>>, <<1>> >> >>
Line1 == << << <<0>>, <<2>> >> >>
Line2 == << << <<0>>, <<2>> >>, << <<1>>, <<5>> >> >>
Line3 == << << <<0>>, <<2>> >>, << <<1>>, <<1>> >>, << <<5>>, <<6>> >> >>
Plane3 == << << <<0, 0>>, <<2, 1>> >>, << <<1, 1>>, <<3, 3>> >>, << <<4, 0>>, <<4, 2>> >> >>
Plane5 == << << <<0, 0>>, <<1, 1>> >>, << <<3, 0>>, <<4, 1>> >>, << <<0, 3>>, <<1, 4>> >>, << <<3, 3>>, <<4, 4>> >>, << <<1, 1>>, <<3, 3>> >> >>

VARIABLES d, bad, last

P == [keys |-> Boxes, max |-> MaxC, min |-> MinC, top |-> 1000, bottom |-> -1000]

Ctx == [keys |-> [s \in 0..1 |-> Boxes], cfg |-> [s \in 0..1 |-> <<MaxC, MinC>>],
        tight |-> [s \in 0..1 |-> TRUE], clones |-> <<1>>]

Observed(root) ==
    [root |-> root, it |-> Entries(root), len |-> Len(Entries(root)), emp |-> Entries(root) = <<>>,
     cnt |-> Len(Entries(root)), hint |-> <<0, -1>>]

Kids == DOMAIN Boxes

Init == /\ d = (0 :> Observed(NewTree(P)))
        /\ bad = {}
        /\ last = <<"new">>

\* Serial numbers are unique over all trees, values are numbered alike.
Used == UNION { { Ser(e) : e \in Contents(d[s]) } : s \in DOMAIN d }
Fresh == CHOOSE i \in 1..(2 * N + 1) : i \notin Used /\ \A j \in 1..(i - 1) : j \in Used

FullKeys == 1..Len(Boxes)
Lookups(t) == [k \in FullKeys |->
    <<k, LET p == Find(P, t.root, k) IN IF p = <<>> THEN <<>> ELSE << Vid(EntryAt(t.root, p)) >> >>]

Broken(o, d1) == UNION { Violated(p, Ctx, d, o, d1) : p \in AllProps }

Step(o, d1) ==
    /\ d' = d1
    /\ bad' = Broken(o, d1)
    /\ last' = <<o.op>>

DoInsert(s, k) ==
    /\ Len(d[s].it) < N /\ ~Unique
    /\ LET e == <<k, Fresh, Fresh>>
       IN Step([op |-> "insert", s |-> s, e |-> e],
               [d EXCEPT ![s] = Observed(InsertEntry(P, d[s].root, e))])

DoInsertUnique(s, k) ==
    /\ \/ Len(d[s].it) < N
       \/ \E e \in Contents(d[s]) : Kid(e) = k
    /\ LET e == <<k, Fresh, Fresh>>
           r == InsertUnique(P, d[s].root, e)
           o == [op |-> "insert_unique", s |-> s, e |-> e, res |-> r.res]
           \* the new value takes the number of the entry it is written to, so
           \* that numbers stay bounded; the contract is checked before that
           t == Observed(r.root)
           f == [x \in Contents(t) |-> <<Kid(x), Ser(x), Ser(x)>>]
       IN /\ bad' = Broken(o, [d EXCEPT ![s] = t])
          /\ d' = [d EXCEPT ![s] = Observed(MapEntries(r.root, f))]
          /\ last' = <<o.op>>

DoRemove(s, k) ==
    LET r == RemoveEntry(P, d[s].root, k)
        t == Observed(r.root)
    IN Step([op |-> "remove", s |-> s, k |-> k, res |-> r.res, gets |-> Lookups(t)],
            [d EXCEPT ![s] = t])

DoGet(s) ==
    Step([op |-> "get", s |-> s, gets |-> Lookups(d[s])], d)

DoClone ==
    /\ Slots > 1 /\ 1 \notin DOMAIN d
    /\ LET d1 == d @@ (1 :> d[0]) IN Step([op |-> "clone", s |-> 0, to |-> 1, gens |-> <<>>], d1)

DoDrop == /\ 1 \in DOMAIN d /\ Step([op |-> "drop", s |-> 1], (0 :> d[0]))

Next ==
    \/ \E s \in DOMAIN d :
         \/ \E k \in Kids : DoInsert(s, k) \/ DoInsertUnique(s, k) \/ DoRemove(s, k)
         \/ DoGet(s)
    \/ DoClone
    \/ DoDrop

Spec == Init /\ [][Next]_<<d, bad, last>>

\* The numbers of the entries are interchangeable: states that differ in them
\* alone are one state.  (Numbered by first occurrence in the iterations.)
View ==
    LET order == IF 1 \in DOMAIN d THEN d[0].it \o d[1].it ELSE d[0].it
        first(e) == Min({ i \in DOMAIN order : Ser(order[i]) = Ser(e) })
        named(t) == MapEntries(t.root, [e \in Contents(t) |-> <<Kid(e), first(e), first(e)>>])
    IN <<[s \in DOMAIN d |-> named(d[s])], bad>>

Refines == bad = {}

\* insert_unique and remove alone never leave two equal keys.
NoEqualKeys == Unique => \A s \in DOMAIN d :
    \A x, y \in Contents(d[s]) : Kid(x) = Kid(y) => x = y

TypeOK == \A s \in DOMAIN d : d[s].len <= N
=============================================================================
