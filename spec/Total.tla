------------------------------- MODULE Total -------------------------------
(***************************************************************************)
(* Every operation on valid input returns (C21).                           *)
(*                                                                         *)
(* The only state is how many entries each tree holds; it bounds how long  *)
(* every iteration can go on.  A step is a call of the library: a whole    *)
(* operation, or a query with all steps of its iterator.                   *)
(*   o.s, o.t  the trees it works on (o.t: the right tree of a join, the   *)
(*             copy of a clone)                                            *)
(*   o.ret     "ok", "panic", or "endless": an iterator that was given up  *)
(*   o.n       how many entries (pairs) were yielded                       *)
(*   o.m       how many the inner iterators of a left join yielded         *)
(*   o.k       by how many entries a tree grew or shrank, as the returned  *)
(*             values say                                                  *)
(* That the algorithms themselves terminate is checked on RTreeAlgo and on *)
(* the search machines (Searches).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(name, ok) == IF ok THEN {} ELSE {name}

After(size, o) ==
    CASE o.op = "new" -> (o.s :> 0) @@ size
      [] o.op = "insert" -> [size EXCEPT ![o.s] = @ + o.k]
      [] o.op = "remove" -> [size EXCEPT ![o.s] = @ - o.k]
      [] o.op = "clone" -> (o.t :> size[o.s]) @@ size
      [] o.op = "drop" -> [s \in DOMAIN size \ {o.s} |-> size[s]]
      [] OTHER -> size

\* The most that an iterator may yield.
Most(size, o) ==
    CASE o.op = "iter" -> size[o.s]
      [] o.op = "join" -> size[o.s] * size[o.t]
      [] o.op = "left_join" -> size[o.s]
      [] o.op = "one" -> 1
      [] OTHER -> 0

MostInner(size, o) == IF o.op = "left_join" THEN size[o.s] * size[o.t] ELSE 0

Total(size, o) ==
    Clause("an operation panics", o.ret # "panic")
    \cup Clause("an iteration does not end", o.ret # "endless")
    \cup Clause("an iteration yields more than there is",
                o.n <= Most(size, o) /\ o.m <= MostInner(size, o))
=============================================================================
