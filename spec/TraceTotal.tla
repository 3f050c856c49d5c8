----------------------------- MODULE TraceTotal -----------------------------
(* Conformance for C21: every line of the trace file is a record [id, ev]. *)
EXTENDS Total, Json, IOUtils

CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, size, bad

Init == h \in DOMAIN Traces /\ l = 0 /\ size = <<>> /\ bad = {}

Next ==
    /\ l < Len(Traces[h].ev)
    /\ LET o == Traces[h].ev[l + 1]
       IN /\ bad' = Total(size, o)
          /\ size' = After(size, o)
    /\ l' = l + 1
    /\ UNCHANGED h

Spec == Init /\ [][Next]_<<h, l, size, bad>>
View == <<h, l>>
Conforms == bad = {}
Alias == [history |-> Traces[h].id, step |-> l, broken |-> bad, entries |-> size,
          event |-> IF l = 0 THEN "init" ELSE ToString(Traces[h].ev[l])]
=============================================================================
