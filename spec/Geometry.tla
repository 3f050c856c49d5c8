------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Exact geometry of points, boxes, line segments, rays and spheres with   *)
(* integer coordinates, in any number of dimensions, as facts about closed *)
(* point sets.                                                             *)
(*                                                                         *)
(* point   : sequence of coordinates          box : <<lo, hi>>             *)
(* segment : <<p, q>>     ray : <<origin, direction>>                      *)
(* sphere  : <<centre, radius>>                                            *)
(***************************************************************************)
EXTENDS Boxes

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))

Sq(x) == x * x
Delta(p, q) == [i \in DOMAIN p |-> q[i] - p[i]]

---------------------------------------------------------------------------
(* Distances.  The dimensions are independent, so the nearest points of    *)
(* two boxes are found in each dimension on its own (MCGeometry compares   *)
(* with the minimum over all grid points).                                 *)

DistPP(p, q) == Sum([i \in DOMAIN p |-> Sq(q[i] - p[i])])

Gap(l1, h1, l2, h2) == MaxOf(0, MaxOf(l2 - h1, l1 - h2))

DistPB(p, b) == Sum([i \in DOMAIN p |-> Sq(Gap(p[i], p[i], b[1][i], b[2][i]))])

DistBB(a, b) == Sum([i \in DOMAIN a[1] |-> Sq(Gap(a[1][i], a[2][i], b[1][i], b[2][i]))])

---------------------------------------------------------------------------
(* Segments and rays: the points o + t d.  The parameter t is a rational   *)
(* <<n, m>>, m > 0.                                                        *)

\* o + t d lies in the box
AtParam(o, d, t, b) ==
    \A i \in DOMAIN o :
        /\ t[2] * b[1][i] <= t[2] * o[i] + t[1] * d[i]
        /\ t[2] * o[i] + t[1] * d[i] <= t[2] * b[2][i]

Rational(n, m) == IF m > 0 THEN <<n, m>> ELSE <<-n, -m>>

\* The parameters at which o + t d passes a side of the box.
Crossings(o, d, b) ==
    UNION { { Rational(b[1][i] - o[i], d[i]), Rational(b[2][i] - o[i], d[i]) } :
              i \in { i \in DOMAIN o : d[i] # 0 } }

\* The set of feasible t is closed: it is empty unless it contains 0 or its
\* least element, where a side is passed.
SegmentMeetsBox(s, b) ==
    LET o == s[1]
        d == Delta(s[1], s[2])
        C == { t \in Crossings(o, d, b) : t[1] >= 0 /\ t[1] <= t[2] }
    IN AtParam(o, d, <<0, 1>>, b) \/ \E t \in C : AtParam(o, d, t, b)

RayMeetsBox(r, b) ==
    LET C == { t \in Crossings(r[1], r[2], b) : t[1] >= 0 }
    IN AtParam(r[1], r[2], <<0, 1>>, b) \/ \E t \in C : AtParam(r[1], r[2], t, b)

\* Floating point computes t exactly if the directions are powers of two.
ExactDirection(d) == \A i \in DOMAIN d : d[i] \in {0, 1, 2, 4, 8, -1, -2, -4, -8}

\* The feasible parameters are a single one, where sides in two dimensions (or
\* a side and an end) are passed: decided by rounding unless it is exact.
Grazes(o, d, b) ==
    /\ ~ExactDirection(d)
    /\ \E t \in Crossings(o, d, b) : AtParam(o, d, t, b)
    /\ \A t1, t2 \in { t \in Crossings(o, d, b) \cup {<<0, 1>>, <<1, 1>>} : AtParam(o, d, t, b) } :
          t1[1] * t2[2] = t2[1] * t1[2]

SegmentGrazes(s, b) == Grazes(s[1], Delta(s[1], s[2]), b)
RayGrazes(r, b) == Grazes(r[1], r[2], b)

SegmentBounds(s) ==
    << [i \in DOMAIN s[1] |-> MinOf(s[1][i], s[2][i])],
       [i \in DOMAIN s[1] |-> MaxOf(s[1][i], s[2][i])] >>

---------------------------------------------------------------------------
SphereMeetsPoint(s, p) == DistPP(s[1], p) <= Sq(s[2])

SphereBounds(s) ==
    << [i \in DOMAIN s[1] |-> s[1][i] - s[2]], [i \in DOMAIN s[1] |-> s[1][i] + s[2]] >>

---------------------------------------------------------------------------
(* The relation between a query shape and a key that a built-in filter is  *)
(* named after.  kind: which shapes.  MayEither: decided by rounding.      *)

Relates(rel, sk, s, kk, k) ==
    CASE rel = "all" -> TRUE
      [] rel = "intersects" /\ sk = "box" /\ kk = "box" -> BoxMeets(s, k)
      [] rel = "intersects" /\ sk = "box" /\ kk = "point" -> PointInBox(k, s)
      [] rel = "intersects" /\ sk = "box" /\ kk = "segment" -> SegmentMeetsBox(k, s)
      [] rel = "intersects" /\ sk = "point" /\ kk = "box" -> PointInBox(s, k)
      [] rel = "intersects" /\ sk = "segment" /\ kk = "box" -> SegmentMeetsBox(s, k)
      [] rel = "intersects" /\ sk = "ray" /\ kk = "box" -> RayMeetsBox(s, k)
      [] rel = "intersects" /\ sk = "sphere" /\ kk = "point" -> SphereMeetsPoint(s, k)
      [] rel = "contains" /\ sk = "box" /\ kk = "box" -> BoxContains(s, k)
      [] rel = "contains" /\ sk = "box" /\ kk = "point" -> PointInBox(k, s)

Doubtful(rel, sk, s, kk, k) ==
    CASE sk = "segment" /\ kk = "box" -> SegmentGrazes(s, k)
      [] sk = "box" /\ kk = "segment" -> SegmentGrazes(k, s)
      [] sk = "ray" /\ kk = "box" -> RayGrazes(s, k)
      [] OTHER -> FALSE
=============================================================================
