------------------------------ MODULE MCHeight ------------------------------
(***************************************************************************)
(* How high the design's trees get, which is how deep the library recurses. *)
(*                                                                         *)
(* Boxes around each other are inserted one by one.  With at least two     *)
(* children per node the contract (Occupied) makes the height logarithmic  *)
(* whatever the boxes are; with a minimum of one (or zero, or one that     *)
(* cannot be kept) every box makes the tree one level higher: the known    *)
(* finding stack-depth-min-1.                                              *)
(***************************************************************************)
EXTENDS RTreeAlgo

CONSTANTS Configs, N

Cfgs == { <<2, 1>>, <<3, 1>>, <<2, 0>>, <<4, 9>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 3>>, <<5, 2>> }

VARIABLES cfg, root, n

P == [keys |-> [i \in 1..N |-> << <<-i, -i>>, <<i, i>> >>], max |-> cfg[1], min |-> cfg[2], top |-> 1000, bottom |-> -1000]

Init == cfg \in Configs /\ n = 0 /\ root = NewTree(P)
Next == n < N /\ n' = n + 1 /\ root' = InsertEntry(P, root, <<n + 1, n + 1, n + 1>>) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, root, n>>

RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)

AtLeast == IF 2 * cfg[2] <= cfg[1] + 1 THEN MaxOf(cfg[2], 1) ELSE 1

Sound == Balanced(root) /\ Tight(root, P.keys) /\ WellSized(root, cfg)
\* The root has two children, every other node at least the minimum.
Logarithmic == (AtLeast >= 2 /\ root.l > 0) => n >= 2 * Power(AtLeast, root.l)
\* The finding: a level for every box, or for every few.
Linear == cfg = <<2, 1>> => root.l = MaxOf(n, 2) - 2
=============================================================================
