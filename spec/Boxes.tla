------------------------------- MODULE Boxes -------------------------------
(***************************************************************************)
(* Axis-aligned boxes over an ordered set of integer coordinates, in any   *)
(* number of dimensions.  A box is a pair <<lo, hi>> of corners, a corner   *)
(* is a sequence of integers.  A box denotes the closed set of points p    *)
(* with lo <= p <= hi in every dimension; it is empty iff some lo > hi.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Lo(b) == b[1]
Hi(b) == b[2]
Dims(b) == DOMAIN b[1]

MaxOf(x, y) == IF x >= y THEN x ELSE y
MinOf(x, y) == IF x <= y THEN x ELSE y

EmptyBox(b) == \E i \in Dims(b) : b[1][i] > b[2][i]

\* The point set of b is a subset of the point set of a.
BoxContains(a, b) ==
    \/ EmptyBox(b)
    \/ \A i \in Dims(a) : a[1][i] <= b[1][i] /\ b[2][i] <= a[2][i]

\* The two point sets share a point (dimensions are independent).
BoxMeets(a, b) ==
    \A i \in Dims(a) : MaxOf(a[1][i], b[1][i]) <= MinOf(a[2][i], b[2][i])

PointInBox(p, b) == \A i \in Dims(b) : b[1][i] <= p[i] /\ p[i] <= b[2][i]

\* The least box containing two non-empty boxes.
BoxUnion(a, b) ==
    << [i \in Dims(a) |-> MinOf(a[1][i], b[1][i])],
       [i \in Dims(a) |-> MaxOf(a[2][i], b[2][i])] >>

\* b is the least box containing all boxes of the non-empty set S.
IsLeastBox(b, S) ==
    \A i \in Dims(b) :
        /\ \A c \in S : b[1][i] <= c[1][i] /\ c[2][i] <= b[2][i]
        /\ \E c \in S : c[1][i] = b[1][i]
        /\ \E c \in S : c[2][i] = b[2][i]

RECURSIVE SideProduct(_, _)
SideProduct(b, i) ==
    IF i > Len(b[1]) THEN 1
    ELSE (b[2][i] - b[1][i]) * SideProduct(b, i + 1)

BoxVolume(b) == SideProduct(b, 1)
=============================================================================
