---------------------------- MODULE TraceThreads ----------------------------
(* Conformance for C22: every line of the trace file is a record [id, ev]; *)
(* the events are independent facts.                                       *)
EXTENDS Threads, Json, IOUtils

CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, bad

Init == h \in DOMAIN Traces /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[h].ev) /\ l' = l + 1
        /\ bad' = C22(Traces[h].ev[l + 1])
        /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, l, bad>>
View == <<h, l>>
Conforms == bad = {}
Alias == [history |-> Traces[h].id, step |-> l, broken |-> bad,
          event |-> IF l = 0 THEN "init" ELSE ToString(Traces[h].ev[l])]
=============================================================================
