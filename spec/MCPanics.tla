------------------------------ MODULE MCPanics ------------------------------
(***************************************************************************)
(* The design survives panics (C16): every history of insertions and       *)
(* removals, and a panic at every moment of every operation of it.         *)
(*                                                                         *)
(* A panic ends the history: what follows is one step of the ledger of     *)
(* module Ownership in which the held entries are dropped and the tree is  *)
(* iterated.                                                               *)
(***************************************************************************)
EXTENDS RTreePanics, TLC

CONSTANTS Boxes, MaxC, MinC, N

Clause(name, ok) == IF ok THEN {} ELSE {name}
Own == INSTANCE Ownership

Line4 == << << <<0>>, <<1>> >>, << <<2>>, <<4>> >>, << <<1>>, <<3>> >>, << <<6>>, <<6>> >> >>
Line3 == << << <<0>>, <<2>> >>, << <<1>>, <<1>> >>, << <<5>>, <<6>> >> >>
Line2 == << << <<0>>, <<2>> >>, << <<1>>, <<5>> >> >>
Plane3 == << << <<0, 0>>, <<2, 1>> >>, << <<1, 1>>, <<3, 3>> >>, << <<4, 0>>, <<4, 2>> >> >>

VARIABLES root, bad

P == [keys |-> Boxes, max |-> MaxC, min |-> MinC, top |-> 1000, bottom |-> -1000]

Contents(n) == RangeOf(Entries(n))
Fresh == CHOOSE i \in 1..(N + 1) : /\ \A e \in Contents(root) : Ser(e) # i
                                   /\ \A j \in 1..(i - 1) : \E e \in Contents(root) : Ser(e) = j

\* Key and value of an entry as objects.
KeyOf(e) == 2 * Ser(e)
ValOf(e) == 2 * Ser(e) + 1
Objects(S) == { KeyOf(e) : e \in S } \cup { ValOf(e) : e \in S }
Listed(n) == LET es == Entries(n) IN [i \in DOMAIN es |-> <<KeyOf(es[i]), ValOf(es[i])>>]

Ledger == [obj |-> Objects(Contents(root)), bnd |-> {}, zst |-> 0, trees |-> (0 :> Listed(root)), heap |-> <<>>]

\* A panic at moment m of an operation that was given the entries new.
Fault(m, new) ==
    LET given == SetToSeq(Objects(new))
        dropped == SetToSeq(Objects(m.held))
        o == [op |-> "call", give |-> given, back |-> <<>>,
              log |-> [i \in DOMAIN dropped |-> <<"d", "k", dropped[i]>>],
              heap |-> <<>>, torn |-> <<>>, tree |-> << <<0, Listed(m.tree)>> >>, gone |-> <<>>, fault |-> TRUE]
    IN Own!Survives(Ledger, o)
       \cup Clause("every entry is somewhere, once",
                   /\ NoDup(Entries(m.tree))
                   /\ Contents(m.tree) \cup m.held \cup m.lost = Contents(root) \cup new
                   /\ Contents(m.tree) \cap m.held = {}
                   /\ Contents(m.tree) \cap m.lost = {}
                   /\ m.held \cap m.lost = {})

Faults(ms, new) == UNION { Fault(m, new) : m \in ms }

Init == root = NewTree(P) /\ bad = {}

DoInsert(k) ==
    LET e == <<k, Fresh, Fresh>> IN
    /\ Cardinality(Contents(root)) < N
    /\ root' = InsertEntry(P, root, e)
    /\ bad' = Faults(InsertEntryMoments(P, root, e), {e})

DoInsertUnique(k) ==
    LET e == <<k, Fresh, Fresh>>
        r == InsertUnique(P, root, e)
    IN /\ Cardinality(Contents(root)) < N
       /\ r.res = <<>>
       /\ root' = r.root
       /\ bad' = Faults(InsertUniqueMoments(P, root, e), {e})

DoReplace(k) ==
    LET e == <<k, Fresh, Fresh>>
        r == InsertUnique(P, root, e)
    IN /\ r.res # <<>>
       /\ UNCHANGED root
       /\ bad' = Faults(InsertUniqueMoments(P, root, e), {e})

DoRemove(k) ==
    /\ root' = RemoveEntry(P, root, k).root
    /\ bad' = Faults(RemoveMoments(P, root, k), {})

Next == \E k \in DOMAIN Boxes : DoInsert(k) \/ DoInsertUnique(k) \/ DoReplace(k) \/ DoRemove(k)
Spec == Init /\ [][Next]_<<root, bad>>

\* The numbers of the entries are interchangeable.
View ==
    LET es == Entries(root)
        at(e) == CHOOSE i \in DOMAIN es : es[i] = e
    IN <<MapEntries(root, [e \in Contents(root) |-> <<Kid(e), at(e), at(e)>>]), bad>>

Survives == bad = {}
=============================================================================
