----------------------------- MODULE MCThreads -----------------------------
(***************************************************************************)
(* The claims that module Threads calls sound are exactly those under      *)
(* which no client can run into a hazard.                                  *)
(*                                                                         *)
(* One container is made in thread 1, the home of its parts.  If it may be *)
(* sent, it may go to thread 2; if it may be shared, both threads may hold *)
(* a reference to it.  At any time a thread that has access to the part    *)
(* may be using it.                                                        *)
(***************************************************************************)
EXTENDS Threads

VARIABLES c, p, kind, send, share,  \* the static part
          at,       \* the thread that has the container
          lent,     \* both threads have a reference to it
          using     \* the threads that are using the part

Static == <<c, p, kind, send, share>>
Threads2 == {1, 2}
Parts == {"B", "K", "V", "F", "M", "shared"}

Init ==
    /\ c \in Containers /\ p \in Parts /\ kind \in Kinds
    /\ p = "shared" => kind = <<FALSE, FALSE>>
    /\ send \in BOOLEAN /\ share \in BOOLEAN
    /\ at = 1 /\ lent = FALSE /\ using = {}

M == Mode(c, p)

\* A reference to an iterator gives access to nothing, nor can it be used meanwhile.
HasAccess(t) ==
    \/ M # "none" /\ ~lent /\ t = at
    \/ M # "none" /\ lent /\ c = "tree"
    \/ M = "ref" /\ t = 1                     \* the lender
    \/ M # "none" /\ kind = <<FALSE, FALSE>> /\ t = 1  \* through a relative at home

Exclusive == M \in {"own", "mut"} /\ ~lent

Move == /\ send /\ ~lent /\ at \notin using
        /\ at' = 3 - at
        /\ UNCHANGED <<lent, using, Static>>
Lend == /\ share /\ ~lent /\ using = {}
        /\ lent' = TRUE
        /\ UNCHANGED <<at, using, Static>>
Return == /\ lent /\ using = {}
          /\ lent' = FALSE
          /\ UNCHANGED <<at, using, Static>>
Use(t) == /\ t \notin using /\ HasAccess(t)
          /\ using' = using \cup {t}
          /\ UNCHANGED <<at, lent, Static>>
Done(t) == /\ t \in using
           /\ using' = using \ {t}
           /\ UNCHANGED <<at, lent, Static>>

Next == Move \/ Lend \/ Return \/ \E t \in Threads2 : Use(t) \/ Done(t)
vars == <<Static, at, lent, using>>
Spec == Init /\ [][Next]_vars

Hazard ==
    \/ Cardinality(using) = 2 /\ ~kind[2]           \* a data race
    \/ at = 2 /\ 2 \in using /\ Exclusive /\ ~kind[1]  \* taken away from its home

\* No hazard under sound claims...
Safe == PartSound(c, p, kind, send, share) => ~Hazard

\* ...and a hazard can be reached under all others.  Checked by expecting every unsound claim
\* among the hazards that TLC meets (register 1), see Complete.
Seen == Hazard => TLCSet(1, TLCGet(1) \cup {Static})
Complete ==
    \A x \in Containers \X Parts \X Kinds \X BOOLEAN \X BOOLEAN :
        (x[2] = "shared" => x[3] = <<FALSE, FALSE>>) /\ ~PartSound(x[1], x[2], x[3], x[4], x[5])
            => x \in TLCGet(1)
ASSUME TLCSet(1, {})
=============================================================================
