------------------------------- MODULE MCRcMut -------------------------------
(***************************************************************************)
(* The shared memory of a left join: the join and the last inner iterator  *)
(* it handed out share one block; "shared" says that both are alive.  A    *)
(* new inner iterator takes the block if the join owns it alone, and a new *)
(* one otherwise.  Whoever lets go of a block that is not shared frees it. *)
(*                                                                         *)
(* Every order of creating and dropping is checked against the ledger of   *)
(* memory of module Ownership: nothing is freed twice, used after it was   *)
(* freed, written by two owners, or left in the end.                       *)
(***************************************************************************)
EXTENDS Ownership

CONSTANT Inners      \* inner iterators in the order of their creation: 1..Inners

VARIABLES join,      \* the block of the join, 0 if the join is gone
          inner,     \* inner iterator |-> its block
          shared,    \* block |-> its flag
          value,     \* block |-> whose stack it contains (0: nobody's)
          made,      \* number of inner iterators made
          own, bad   \* the ledger, and what is wrong with the step

vars == <<join, inner, shared, value, made, own, bad>>

Extent == <<64, 8>>
Step0 == [op |-> "step", give |-> <<>>, back |-> <<>>, log |-> <<>>, heap |-> <<>>, torn |-> <<>>,
          tree |-> <<>>, gone |-> <<>>, fault |-> FALSE]
Take(b) == <<"a", b, Extent[1], Extent[2]>>
Free(b) == <<"f", b, Extent[1], Extent[2]>>

Live(b) == b \in DOMAIN own.heap
NewBlock == CHOOSE b \in 1..(Inners + 1) :
    b \notin DOMAIN own.heap /\ \A c \in 1..(b - 1) : c \in DOMAIN own.heap

Init ==
    /\ join = 1
    /\ inner = <<>>
    /\ shared = (1 :> FALSE)
    /\ value = (1 :> 0)
    /\ made = 0
    /\ own = After(Start, [Step0 EXCEPT !.heap = <<Take(1)>>])
    /\ bad = {}

Used(b) == IF Live(b) THEN {} ELSE {"memory is used after it was freed"}

\* A new allocator replaces the shared one; dropping that clears its flag.
Make ==
    /\ join # 0 /\ made < Inners
    /\ LET fresh == shared[join]
           b == IF fresh THEN NewBlock ELSE join
           o == [Step0 EXCEPT !.heap = IF fresh THEN <<Take(b)>> ELSE <<>>]
       IN /\ join' = b
          /\ inner' = (made + 1 :> b) @@ inner
          /\ shared' = (b :> TRUE) @@ (join :> FALSE) @@ shared
          /\ value' = (b :> made + 1) @@ value
          /\ bad' = Violated("C14", own, o) \cup Used(join)
          /\ own' = After(own, o)
    /\ made' = made + 1

\* Dropping one side of block b.
Let(b) ==
    IF shared[b] THEN <<<<>>, [shared EXCEPT ![b] = FALSE]>>
    ELSE <<<<Free(b)>>, shared>>

DropInner(i) ==
    /\ i \in DOMAIN inner
    /\ LET b == inner[i]
           r == Let(b)
           rest == [j \in DOMAIN inner \ {i} |-> inner[j]]
           o == [Step0 EXCEPT !.heap = r[1],
                              !.op = IF join = 0 /\ rest = <<>> THEN "end" ELSE "step"]
       IN /\ bad' = Violated("C14", own, o) \cup Used(b)
          /\ own' = After(own, o)
          /\ shared' = r[2]
          /\ inner' = rest
    /\ UNCHANGED <<join, value, made>>

DropJoin ==
    /\ join # 0
    /\ LET r == Let(join)
           o == [Step0 EXCEPT !.heap = r[1], !.op = IF inner = <<>> THEN "end" ELSE "step"]
       IN /\ bad' = Violated("C14", own, o) \cup Used(join)
          /\ own' = After(own, o)
          /\ shared' = r[2]
    /\ join' = 0
    /\ UNCHANGED <<inner, value, made>>

Next == Make \/ DropJoin \/ \E i \in DOMAIN inner : DropInner(i)
Spec == Init /\ [][Next]_vars

Clean == bad = {}
\* Every living inner iterator has its own stack in a block of its own.
Separate == \A i \in DOMAIN inner : Live(inner[i]) /\ value[inner[i]] = i
SharedFlag == \A b \in DOMAIN own.heap :
    shared[b] <=> (join = b /\ \E i \in DOMAIN inner : inner[i] = b)
=============================================================================
