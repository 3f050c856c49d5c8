------------------------------ MODULE TraceAlgo ------------------------------
(***************************************************************************)
(* Does the real library rearrange trees exactly as the design (RTreeAlgo) *)
(* says?  Looks at every recorded insertion and removal and counts the     *)
(* steps that come out as computed, and those that do not.  A library that *)
(* arranges trees in another way breaks no promise, so this is counted and *)
(* not judged; it tells whether what is checked about the design (MCRTree) *)
(* is about this library.                                                  *)
(***************************************************************************)
EXTENDS RTreeAlgo, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l

Tr == Traces[h]
Steps(tr) == IF tr.alt THEN {} ELSE { i \in DOMAIN tr.ev : tr.ev[i].op \in {"insert", "insert_unique", "remove"} }

Tree(tr, obs, s) ==
    tr.st[obs[CHOOSE i \in DOMAIN obs : obs[i][1] = s][2]]
Before(tr, i) == IF i = 1 THEN tr.init ELSE tr.ev[i - 1].post

\* Bounds of a tree without entries are any empty box.
Norm(P, root) == IF Entries(root) = <<>> /\ root.l = 0 THEN NewTree(P) ELSE root

Agrees(tr, i) ==
    LET o == tr.ev[i]
        P == [keys |-> tr.keys[o.s], max |-> tr.cfg[o.s][1], min |-> tr.cfg[o.s][2],
              top |-> 1000000, bottom |-> -1000000]
        pre == Norm(P, Tree(tr, Before(tr, i), o.s).root)
        post == Norm(P, Tree(tr, o.post, o.s).root)
    IN CASE o.op = "insert" -> post = InsertEntry(P, pre, o.e)
         [] o.op = "insert_unique" ->
              LET r == InsertUnique(P, pre, o.e) IN post = r.root /\ o.res = r.res
         [] o.op = "remove" ->
              LET r == RemoveEntry(P, pre, o.k) IN post = r.root /\ o.res = r.res

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)

Init == h \in DOMAIN Traces /\ l = 0
Next ==
    /\ l < Len(Tr.ev)
    /\ l' = l + 1
    /\ UNCHANGED h
    /\ IF l + 1 \in Steps(Tr)
       THEN IF Agrees(Tr, l + 1) THEN TLCSet(1, TLCGet(1) + 1) ELSE TLCSet(2, TLCGet(2) + 1)
       ELSE TRUE
Spec == Init /\ [][Next]_<<h, l>>

Report == PrintT(<<"agree", TLCGet(1), "differ", TLCGet(2)>>)
=============================================================================
