---------------------------- MODULE TraceGeometry ----------------------------
(***************************************************************************)
(* Conformance: facts recorded from the real library.  Every line of the   *)
(* trace file is a record [id, keys, ev]; ev is a sequence of facts.       *)
(***************************************************************************)
EXTENDS GeometryFacts, Json, IOUtils

CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, bad

Init == h \in DOMAIN Traces /\ l = 0 /\ bad = {}

Next ==
    /\ l < Len(Traces[h].ev)
    /\ l' = l + 1
    /\ bad' = Violated(Prop, Traces[h].ev[l + 1], Traces[h].keys)
    /\ UNCHANGED h

Spec == Init /\ [][Next]_<<h, l, bad>>
View == <<h, l>>
Conforms == bad = {}
Alias == [history |-> Traces[h].id, step |-> l, broken |-> bad,
          event |-> IF l = 0 THEN "init" ELSE ToString(Traces[h].ev[l])]
=============================================================================
