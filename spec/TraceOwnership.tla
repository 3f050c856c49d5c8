--------------------------- MODULE TraceOwnership ---------------------------
(***************************************************************************)
(* Conformance: calls of the real library, with the drops of tracked       *)
(* objects and the calls of the memory allocator that happen in them.      *)
(* Every line of the trace file is a record [id, ev].                      *)
(***************************************************************************)
EXTENDS Ownership, Json, IOUtils

CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, own, bad

Init == h \in DOMAIN Traces /\ l = 0 /\ own = Start /\ bad = {}

Next ==
    /\ l < Len(Traces[h].ev)
    /\ LET o == Traces[h].ev[l + 1]
       IN /\ bad' = Violated(Prop, own, o)
          /\ own' = After(own, o)
    /\ l' = l + 1
    /\ UNCHANGED h

Spec == Init /\ [][Next]_<<h, l, own, bad>>
View == <<h, l>>
Conforms == bad = {}
Alias == [history |-> Traces[h].id, step |-> l, broken |-> bad, owners |-> own,
          event |-> IF l = 0 THEN "init" ELSE ToString(Traces[h].ev[l])]
=============================================================================
