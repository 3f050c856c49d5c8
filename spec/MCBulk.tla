------------------------------- MODULE MCBulk -------------------------------
(***************************************************************************)
(* Bulk is a quotient of the contract: doing the same to every key of a    *)
(* class, key by key and in any order, leads from trees whose keys are     *)
(* alike to such trees, and to the ones Bulk says.                         *)
(*                                                                         *)
(*   x     tree -> <<class, key>> -> the marks of its entries (a sequence; *)
(*         which entry is removed or overwritten is left open)             *)
(*   todo  the keys that the present step has not come to yet              *)
(*   some  how many of its calls returned a value                          *)
(***************************************************************************)
EXTENDS Bulk

CONSTANTS Size, MaxN, Marks

Size21 == <<2, 1>>
Size3 == <<3>>

VARIABLES d, x, o, todo, some

vars == <<d, x, o, todo, some>>

Keys == UNION { { <<c, i>> : i \in 0..(Size[c] - 1) } : c \in DOMAIN Size }
Idle == [op |-> "idle", s |-> 0, c |-> 1]

Init == /\ d = (0 :> Nothing(Size))
        /\ x = (0 :> [k \in Keys |-> <<>>])
        /\ o = Idle /\ todo = {} /\ some = 0

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Start ==
    /\ o.op = "idle"
    /\ some' = 0
    /\ \/ \E op \in {"insert", "unique", "remove", "get"}, s \in DOMAIN d, c \in DOMAIN Size :
             /\ op \in {"insert", "unique"} => d[s][c].n < MaxN \/ (op = "unique" /\ d[s][c].n > 0)
             /\ o' = [op |-> op, s |-> s, c |-> c]
             /\ todo' = { k \in Keys : k[1] = c }
             /\ UNCHANGED <<d, x>>
       \/ \E s \in DOMAIN d, C \in SUBSET DOMAIN Size, m \in Marks :
             LET C2 == { c \in C : TRUE }
                 sq == [c \in C2 |-> [c |-> c]]
             IN /\ C # {}
                /\ o' = [op |-> "mark", s |-> s, c |-> 1, mark |-> m, seen |-> sq]
                /\ todo' = { k \in Keys : k[1] \in C }
                /\ UNCHANGED <<d, x>>
       \/ /\ DOMAIN d = {0}
          /\ d' = After(Size, d, [op |-> "clone", s |-> 0, t |-> 1])
          /\ x' = (1 :> x[0]) @@ x
          /\ UNCHANGED <<o, todo>>
       \/ /\ DOMAIN d = {0, 1}
          /\ \E s \in {1} : /\ d' = After(Size, d, [op |-> "drop", s |-> s])
                            /\ x' = [t \in DOMAIN x \ {s} |-> x[t]]
          /\ UNCHANGED <<o, todo>>

OneKey ==
    /\ todo # {}
    /\ \E k \in todo :
          LET e == x[o.s][k] IN
          /\ todo' = todo \ {k}
          /\ CASE o.op = "insert" -> x' = [x EXCEPT ![o.s][k] = Append(@, 0)] /\ UNCHANGED some
               [] o.op = "get" -> UNCHANGED x /\ some' = some + (IF e = <<>> THEN 0 ELSE 1)
               [] o.op = "remove" ->
                     IF e = <<>> THEN UNCHANGED <<x, some>>
                     ELSE \E i \in DOMAIN e : x' = [x EXCEPT ![o.s][k] = Without(e, i)] /\ some' = some + 1
               [] o.op = "unique" ->
                     IF e = <<>> THEN x' = [x EXCEPT ![o.s][k] = <<0>>] /\ UNCHANGED some
                     ELSE \E i \in DOMAIN e : x' = [x EXCEPT ![o.s][k][i] = 0] /\ some' = some + 1
               [] o.op = "mark" -> x' = [x EXCEPT ![o.s][k] = [i \in DOMAIN @ |-> o.mark]] /\ some' = some + Len(e)
    /\ UNCHANGED <<d, o>>

End ==
    /\ o.op # "idle" /\ todo = {}
    /\ d' = After(Size, d, o)
    /\ o' = Idle
    /\ UNCHANGED <<x, todo, some>>

Next == Start \/ OneKey \/ End
Spec == Init /\ [][Next]_vars

\* Between steps the trees are what Bulk says ...
Quotient ==
    o.op = "idle" =>
        \A s \in DOMAIN d : \A k \in Keys :
            LET t == d[s][k[1]] IN
            /\ Len(x[s][k]) = t.n
            /\ t.m # MIXED => \A i \in DOMAIN x[s][k] : x[s][k][i] = t.m
\* ... and the calls have returned what it says.
Returns ==
    (o.op \in {"get", "unique", "remove"} /\ todo = {}) =>
        some = (IF d[o.s][o.c].n > 0 THEN Size[o.c] ELSE 0)
=============================================================================
