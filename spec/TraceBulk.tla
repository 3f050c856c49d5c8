------------------------------ MODULE TraceBulk ------------------------------
(* Conformance with Bulk: every line of the trace file is a record [id, size, ev]. *)
EXTENDS Bulk, Json, IOUtils

CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, d, bad

Init == h \in DOMAIN Traces /\ l = 0 /\ d = <<>> /\ bad = {}

Next ==
    /\ l < Len(Traces[h].ev)
    /\ LET o == Traces[h].ev[l + 1]
       IN /\ bad' = Violated(Prop, Traces[h].size, d, o)
          /\ d' = After(Traces[h].size, d, o)
    /\ l' = l + 1
    /\ UNCHANGED h

Spec == Init /\ [][Next]_<<h, l, d, bad>>
View == <<h, l>>
Conforms == bad = {}
Alias == [history |-> Traces[h].id, step |-> l, broken |-> bad, entries |-> d,
          event |-> IF l = 0 THEN "init" ELSE ToString(Traces[h].ev[l])]
=============================================================================
