----------------------------- MODULE MCGeometry -----------------------------
(***************************************************************************)
(* The formulas of module Geometry (and Boxes), compared with the point    *)
(* sets they are about: every point, box, segment, ray and sphere on a     *)
(* small grid.                                                             *)
(*                                                                         *)
(* Distances and box relations: by going over the points of the sets.      *)
(* Segments and rays in the plane: by separating axes (two convex sets are *)
(* disjoint iff they are separated along x, along y or along the normal of *)
(* the segment).                                                           *)
(***************************************************************************)
EXTENDS Geometry, TLC

CONSTANTS What,      \* "boxes", "segments", "rays", "solid" (three dimensions)
          Side       \* coordinates 0..Side

G == 0..Side
Points == { <<x, y>> : x, y \in G }
Intervals == { <<x, y>> \in G \X G : x <= y }
AllBoxes == { << <<u[1], v[1]>>, <<u[2], v[2]>> >> : u, v \in Intervals }
Members(b) == { <<x, y>> : x \in b[1][1]..b[2][1], y \in b[1][2]..b[2][2] }

Least(S) == CHOOSE x \in S : \A y \in S : x <= y

VARIABLES a, b
vars == <<a, b>>

Init ==
    CASE What = "boxes" -> a \in AllBoxes /\ b \in AllBoxes
      [] What = "segments" -> a \in Points \X Points /\ b \in AllBoxes
      [] What = "rays" -> /\ a \in Points \X { <<x, y>> : x, y \in -Side..Side }
                          /\ a[2] # <<0, 0>> /\ b \in AllBoxes
      [] What = "solid" -> /\ a \in { << <<x, 0, 0>>, <<y, z, w>> >> : x, y, z, w \in G }
                           /\ b \in { << <<u[1], v[1], w[1]>>, <<u[2], v[2], w[2]>> >> : u, v, w \in Intervals }
Spec == Init /\ [][UNCHANGED vars]_vars

---------------------------------------------------------------------------
BoxesRight ==
    /\ BoxContains(a, b) <=> Members(b) \subseteq Members(a)
    /\ BoxMeets(a, b) <=> Members(a) \cap Members(b) # {}
    /\ LET u == BoxUnion(a, b) IN
       /\ Members(a) \cup Members(b) \subseteq Members(u)
       /\ IsLeastBox(u, {a, b})
       /\ \A c \in AllBoxes : IsLeastBox(c, {a, b}) => c = u
    /\ DistBB(a, b) = Least({ DistPP(p, q) : p \in Members(a), q \in Members(b) })
    /\ BoxVolume(a) = (a[2][1] - a[1][1]) * (a[2][2] - a[1][2])
    /\ \A p \in { <<x, y>> : x \in {0, Side}, y \in G } :
         /\ DistPB(p, b) = Least({ DistPP(p, q) : q \in Members(b) })
         /\ PointInBox(p, b) <=> p \in Members(b)
         /\ \A r \in 0..Side :
              /\ SphereMeetsPoint(<<p, r>>, b[1]) <=> DistPP(p, b[1]) <= r * r
              /\ SphereMeetsPoint(<<p, r>>, b[1]) => PointInBox(b[1], SphereBounds(<<p, r>>))
    /\ DistBB(a, b) = 0 <=> BoxMeets(a, b)
    \* What holds of volumes and distances that are rounded, too.
    /\ LET u == BoxUnion(a, b) IN
       /\ BoxVolume(a) <= BoxVolume(u)
       /\ BoxVolume(a) = 0 <=> \E i \in 1..2 : a[1][i] = a[2][i]
       /\ \A p \in { <<x, y>> : x \in {0, Side}, y \in G } :
             DistBB(<<p, p>>, u) <= DistBB(<<p, p>>, a)
    \* The lower bounds that nearest-neighbour search relies on.
    /\ BoxContains(a, b) => \A p \in Points : DistPB(p, a) <= DistPB(p, b)

---------------------------------------------------------------------------
Corners(c) == { <<x, y>> : x \in {c[1][1], c[2][1]}, y \in {c[1][2], c[2][2]} }
Cross(d, p, q) == d[1] * (q[2] - p[2]) - d[2] * (q[1] - p[1])

\* Is the segment from p to q separated from the box?
Separated(p, q, c) ==
    \/ \E i \in 1..2 : MaxOf(p[i], q[i]) < c[1][i] \/ MinOf(p[i], q[i]) > c[2][i]
    \/ LET d == Delta(p, q) IN
       \/ \A k \in Corners(c) : Cross(d, p, k) > 0
       \/ \A k \in Corners(c) : Cross(d, p, k) < 0

\* The parameters, in fractions that contain all crossings.
Fine == LET f[n \in 0..Side] == IF n = 0 THEN 1 ELSE n * f[n - 1] IN f[Side]
Feasible(o, d, c, hi) == { n \in 0..(hi * Fine) : AtParam(o, d, <<n, Fine>>, c) }

SegmentsRight ==
    LET d == Delta(a[1], a[2])
        feasible == Feasible(a[1], d, b, 1)
    IN /\ SegmentMeetsBox(a, b) <=> ~Separated(a[1], a[2], b)
       /\ SegmentMeetsBox(a, b) <=> feasible # {}
       /\ SegmentMeetsBox(a, b) => BoxMeets(SegmentBounds(a), b)
       /\ SegmentMeetsBox(a, b) <=> SegmentMeetsBox(<<a[2], a[1]>>, b)
       /\ BoxContains(SegmentBounds(a), <<a[1], a[1]>>) /\ BoxContains(SegmentBounds(a), <<a[2], a[2]>>)
       \* What is exempted is a single point of contact at most.
       /\ SegmentGrazes(a, b) => Cardinality(feasible) <= 1

RaysRight ==
    LET far == [i \in 1..2 |-> a[1][i] + (2 * Side + 1) * a[2][i]]
    IN /\ RayMeetsBox(a, b) <=> ~Separated(a[1], far, b)
       /\ RayGrazes(a, b) => Cardinality(Feasible(a[1], a[2], b, Side)) <= 1

Right ==
    CASE What = "boxes" -> BoxesRight
      [] What = "segments" -> SegmentsRight
      [] What = "rays" -> RaysRight
      [] What = "solid" -> /\ SegmentMeetsBox(a, b) <=> Feasible(a[1], Delta(a[1], a[2]), b, 1) # {}
                           /\ SegmentMeetsBox(a, b) /\ a[1] # a[2] => RayMeetsBox(<<a[1], Delta(a[1], a[2])>>, b)
=============================================================================
