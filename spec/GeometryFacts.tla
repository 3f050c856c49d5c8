---------------------------- MODULE GeometryFacts ----------------------------
(***************************************************************************)
(* The contract of the geometric operations (C17..C20): which answers are  *)
(* allowed.  A fact is a record: an operation, its arguments, its answers. *)
(***************************************************************************)
EXTENDS Geometry, TLC

Clause(name, ok) == IF ok THEN {} ELSE {name}
RangeOf(s) == { s[i] : i \in DOMAIN s }
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)

Flat(b) == \E i \in DOMAIN b[1] : b[1][i] = b[2][i]

F17(o) ==
    CASE o.op = "boxes" ->
            Clause("contains", o.contains = BoxContains(o.a, o.b))
            \cup Clause("intersects", o.meets = BoxMeets(o.a, o.b))
            \cup Clause("both orders agree", o.meets = o.meets2)
            \cup Clause("union is the least box containing both",
                        o.union = BoxUnion(o.a, o.b))
      [] o.op = "boxpoint" ->
            Clause("contains", o.contains = PointInBox(o.p, o.a))
            \cup Clause("intersects", o.meets = PointInBox(o.p, o.a))
            \cup Clause("a point intersects a box that contains it",
                        o.meets2 = PointInBox(o.p, o.a))
            \cup Clause("bounds of a point", o.bounds = <<o.p, o.p>>)
            \cup Clause("bounds of a box", o.bounds2 = o.a)
      [] o.op = "unionall" ->
            IF o.boxes = <<>>
            THEN Clause("union_all of nothing is the empty box", o.isempty)
            ELSE Clause("union_all is the least box containing all",
                        IsLeastBox(o.union, RangeOf(o.boxes)))
      [] o.op = "empty" ->
            Clause("the empty box is the identity of union",
                   o.left = o.a /\ o.right = o.a)
            \cup Clause("every box contains the empty box", o.contains)
            \cup Clause("the empty box contains nothing",
                        ~o.containedin /\ ~o.haspoint)
      [] o.op = "volume" -> Clause("volume", o.v = BoxVolume(o.a))
      \* o.v: ranks of the volumes of a, b and their union, o.zero: that of 0
      [] o.op = "growth" ->
            Clause("no volume is negative", \A i \in 1..3 : o.v[i] >= o.zero)
            \cup Clause("a union has at least the volume of its members",
                        o.v[1] <= o.v[3] /\ o.v[2] <= o.v[3])
            \cup Clause("a flat box has no volume",
                        /\ Flat(o.a) => o.v[1] = o.zero
                        /\ Flat(o.b) => o.v[2] = o.zero)
      [] o.op = "vectors" ->
            Clause("all_le", o.le = \A i \in DOMAIN o.p : o.p[i] <= o.q[i])
            \cup Clause("all_ge", o.ge = \A i \in DOMAIN o.p : o.p[i] >= o.q[i])
            \cup Clause("componentwise_min",
                        o.min = [i \in DOMAIN o.p |-> MinOf(o.p[i], o.q[i])])
            \cup Clause("componentwise_max",
                        o.max = [i \in DOMAIN o.p |-> MaxOf(o.p[i], o.q[i])])
            \cup Clause("least and greatest vector", o.extremes)
      [] OTHER -> {}

F18(o) ==
    CASE o.op = "segment" ->
            Clause("a segment and the boxes it meets",
                   \A i \in DOMAIN o.boxes :
                      SegmentGrazes(o.s, o.boxes[i])
                      \/ o.meets[i] = SegmentMeetsBox(o.s, o.boxes[i]))
            \cup Clause("both orders agree", o.meets = o.meets2)
            \cup Clause("bounds of a segment", o.bounds = SegmentBounds(o.s))
      [] o.op = "ray" ->
            Clause("a ray and the boxes it meets",
                   \A i \in DOMAIN o.boxes :
                      RayGrazes(o.s, o.boxes[i])
                      \/ o.meets[i] = RayMeetsBox(o.s, o.boxes[i]))
            \cup Clause("both orders agree", o.meets = o.meets2)
      [] o.op = "sphere" ->
            Clause("a sphere and the points it meets",
                   \A i \in DOMAIN o.points :
                      o.meets[i] = SphereMeetsPoint(o.s, o.points[i]))
            \cup Clause("both orders agree", o.meets = o.meets2)
            \cup Clause("bounds of a sphere", o.bounds = SphereBounds(o.s))
      [] OTHER -> {}

\* The distance of a key of some kind from a point.
KeyDist(kind, p, k) == IF kind = "point" THEN DistPP(p, k) ELSE DistPB(p, k)

F19(o, keys) ==
    CASE o.op = "distance" ->
            Clause("point to point",
                   \A i \in DOMAIN o.points : o.pp[i] = DistPP(o.p, o.points[i]))
            \cup Clause("point to box",
                   \A i \in DOMAIN o.boxes : o.pb[i] = DistPB(o.p, o.boxes[i]))
            \cup Clause("the ranking gives the distances",
                   /\ \A i \in DOMAIN o.boxes :
                         /\ o.rank[i] = DistPB(o.p, o.boxes[i])
                         /\ o.rankb[i] = DistPB(o.p, o.boxes[i])
                   /\ \A i \in DOMAIN o.points : o.rankp[i] = DistPP(o.p, o.points[i]))
      [] o.op = "boxdist" ->
            Clause("box to box",
                   \A i \in DOMAIN o.boxes :
                      /\ o.bb[i] = DistBB(o.a, o.boxes[i])
                      /\ o.bb2[i] = DistBB(o.a, o.boxes[i]))
      \* o.v: ranks of the distances of a and b, b and a, a and a box around b
      [] o.op = "reach" ->
            Clause("the distance is symmetric", o.v[1] = o.v[2])
            \cup Clause("0 exactly when they touch or overlap",
                        (o.v[1] = o.zero) = BoxMeets(o.a, o.b))
            \cup Clause("no farther from what is around", o.v[3] <= o.v[1])
            \cup Clause("no distance is negative", o.zero = 0)
      [] o.op = "length" ->
            Clause("the vector of a segment", o.delta = Delta(o.s[1], o.s[2]))
            \cup Clause("the squared length of a segment",
                        o.sqlen = DistPP(o.s[1], o.s[2]))
            \cup Clause("the length of a segment",
                        /\ Sq(o.len) <= DistPP(o.s[1], o.s[2])
                        /\ DistPP(o.s[1], o.s[2]) < Sq(o.len + 1))
      [] o.op = "sum" ->
            Clause("sum of vectors", o.sum = [i \in DOMAIN o.p |-> o.p[i] + o.q[i]])
            \cup Clause("difference of vectors", o.diff = Delta(o.q, o.p))
            \cup Clause("squared magnitude", o.sq = Sum([i \in DOMAIN o.p |-> Sq(o.p[i])]))
      [] o.op = "nearest" ->
            LET m == [i \in DOMAIN o.res |-> KeyDist(o.kind, o.p, keys[o.res[i][1]])]
            IN Clause("every entry once",
                      NoDup(o.res) /\ Len(o.res) = MinOf(o.most, o.size))
               \cup Clause("in the order of distance",
                      \A i \in 1..(Len(m) - 1) : m[i] <= m[i + 1])
               \cup Clause("nothing nearer is left behind",
                      \A i \in DOMAIN o.stored :
                         o.stored[i] \in RangeOf(o.res)
                         \/ \A j \in DOMAIN m : m[j] <= KeyDist(o.kind, o.p, keys[o.stored[i][1]]))
      [] OTHER -> {}

\* A query with a built-in filter.  o.stored, o.res: entries <<kid, vid>>,
\* keys: the keys by kid.
F20(o, keys) ==
    IF o.op = "query"
    THEN LET hit(e) == Relates(o.rel, o.sk, o.shape, o.kk, keys[e[1]])
             doubt(e) == Doubtful(o.rel, o.sk, o.shape, o.kk, keys[e[1]])
         IN Clause("yields no entry twice", NoDup(o.res))
            \cup Clause("yields only entries that are related to the shape",
                        \A i \in DOMAIN o.res :
                           /\ o.res[i] \in RangeOf(o.stored)
                           /\ hit(o.res[i]) \/ doubt(o.res[i]))
            \cup Clause("yields every entry that is related to the shape",
                        \A i \in DOMAIN o.stored :
                           \/ o.stored[i] \in RangeOf(o.res)
                           \/ ~hit(o.stored[i])
                           \/ doubt(o.stored[i]))
    ELSE {}

Violated(P, o, keys) ==
    IF o.op = "panic" THEN {"the operation panicked"}
    ELSE CASE P = "C17" -> F17(o)
           [] P = "C18" -> F18(o)
           [] P = "C19" -> F19(o, keys)
           [] P = "C20" -> F20(o, keys)
           [] OTHER -> {}
=============================================================================
