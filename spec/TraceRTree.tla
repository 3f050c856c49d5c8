----------------------------- MODULE TraceRTree -----------------------------
(***************************************************************************)
(* Conformance: steps recorded from the real library, checked against the  *)
(* contract (RTree, Queries).                                              *)
(*                                                                         *)
(* Every line of the trace file is one history.  tr.st is a table of       *)
(* observed trees; a database state is recorded as pairs <<slot, index>>.  *)
(* tr.alt = FALSE: tr.ev is a path of steps from tr.init.                  *)
(* tr.alt = TRUE: tr.ev are alternative steps, all from tr.init.           *)
(*                                                                         *)
(* After a step that breaks the watched property the run goes on from the  *)
(* recorded state, so that one defect does not mask another.               *)
(***************************************************************************)
EXTENDS Queries, Json, IOUtils

CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, db, bad

Tr == Traces[h]

Db(tr, obs) ==
    [s \in { obs[i][1] : i \in DOMAIN obs } |->
        tr.st[obs[CHOOSE i \in DOMAIN obs : obs[i][1] = s][2]]]

Ctx(tr) == [keys |-> tr.keys, cfg |-> tr.cfg, tight |-> tr.tight, clones |-> tr.clones]

InitStep(tr) ==
    Violated(Prop, Ctx(tr), <<>>, [op |-> "init", s |-> 0], Db(tr, tr.init))

Init ==
    /\ h \in DOMAIN Traces
    /\ l = 0
    /\ db = Db(Traces[h], Traces[h].init)
    /\ bad = InitStep(Traces[h])

Step(e) ==
    /\ db' = IF "post" \in DOMAIN e THEN Db(Tr, e.post) ELSE db
    /\ bad' = Violated(Prop, Ctx(Tr), db, e, db')
    /\ UNCHANGED h

Next ==
    IF Tr.alt
    THEN l = 0 /\ \E i \in DOMAIN Tr.ev : l' = i /\ Step(Tr.ev[i])
    ELSE l < Len(Tr.ev) /\ l' = l + 1 /\ Step(Tr.ev[l + 1])

Spec == Init /\ [][Next]_<<h, l, db, bad>>

View == <<h, l>>

Conforms == bad = {}

\* What is shown of a counterexample.
Alias == [history |-> Tr.id, step |-> l, broken |-> bad,
          event |-> IF l = 0 THEN "init" ELSE ToString(Tr.ev[l])]
=============================================================================
