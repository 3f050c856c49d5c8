------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* C22: what threads may do with trees and iterators.                      *)
(*                                                                         *)
(* A container (a tree or an iterator) gives access to its parts: bounds,  *)
(* keys and values (B, K, V; of the other tree of a join B2, K2, V2), the  *)
(* filter or ranking F and the metrics M it keeps.  Every part is of a     *)
(* kind <<send, sync>>.  How a container has access to a part:             *)
(*   own   it owns the part: it may move and drop it                       *)
(*   mut   it has the only reference, and may write through it             *)
(*   only  it has the only reference, but does not write                   *)
(*   ref   the thread that lent the tree may have references as well       *)
(* The iterators of a left join share memory that only one thread at a     *)
(* time may use: a part of kind <<FALSE, FALSE>>, called "shared".         *)
(*                                                                         *)
(* The module first says what the type of a container may claim (Sound),   *)
(* then justifies this by a machine: two threads, one part, and the        *)
(* hazards (data races, use of a part in a thread that it must not leave). *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

Kinds == BOOLEAN \X BOOLEAN  \* <<send, sync>>

Containers == {"tree", "iter", "iter_mut", "filter", "filter_mut", "rank", "rank_mut",
               "join", "left_join", "left_join_inner"}

\* How the container has access to the part; "none" if it has not.
Mode(c, p) ==
    IF p = "shared" THEN IF c \in {"left_join", "left_join_inner"} THEN "own" ELSE "none"
    ELSE IF p \in {"F", "M"} THEN "own"
    ELSE CASE c = "tree" -> "own"
           [] c = "iter" -> IF p = "B" THEN "none" ELSE "ref"
           [] c = "iter_mut" -> IF p = "B" THEN "none" ELSE IF p = "V" THEN "mut" ELSE "only"
           [] c \in {"filter_mut", "rank_mut"} -> IF p = "V" THEN "mut" ELSE "only"
           [] OTHER -> "ref"

---------------------------------------------------------------------------
(* What may be claimed of one part.                                        *)

SendSound(mode, kind) ==
    CASE mode = "none" -> TRUE
      [] mode \in {"own", "mut"} -> kind[1]
      [] mode = "only" -> kind[1] \/ kind[2]
      [] mode = "ref" -> kind[2]

\* A reference to an iterator gives access to nothing.
ShareSound(c, mode, kind) == mode = "none" \/ c # "tree" \/ kind[2]

PartSound(c, p, kind, send, share) ==
    /\ send => SendSound(Mode(c, p), kind)
    /\ share => ShareSound(c, Mode(c, p), kind)

---------------------------------------------------------------------------
(* What the compiler was seen to allow: o.c the container, o.kinds[p] the  *)
(* kind of part p, o.send and o.share whether it may be sent to and shared *)
(* with another thread.                                                    *)

Clause(name, ok) == IF ok THEN {} ELSE {name}

C22(o) ==
    Clause("may be sent only if what it gives access to may be",
           o.send => /\ \A p \in DOMAIN o.kinds : SendSound(Mode(o.c, p), o.kinds[p])
                     /\ SendSound(Mode(o.c, "shared"), <<FALSE, FALSE>>))
    \cup Clause("may be shared only if what it gives access to may be",
           o.share => \A p \in DOMAIN o.kinds : ShareSound(o.c, Mode(o.c, p), o.kinds[p]))
    \cup (IF o.c = "tree"
          THEN Clause("a tree may be sent if its parts may be",
                      (\A p \in DOMAIN o.kinds : o.kinds[p][1]) => o.send)
               \cup Clause("a tree may be shared if its parts may be",
                      (\A p \in DOMAIN o.kinds : o.kinds[p][2]) => o.share)
          ELSE {})
=============================================================================
