------------------------------- MODULE Estimate ----------------------------
(* Rotation and transform estimators (C19) on lists of integer vectors.     *)
EXTENDS Algebra

Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>

(* sum of v2 (outer) v1, and the form whose value at a unit quaternion q is *)
(* the sum of v2 . rot(q, v1) (Davenport): least squares = its maximum      *)
Corr(v1, v2) ==
    LET B[n \in 0..Len(v1)] ==
          IF n = 0 THEN [i \in 1..3 |-> [j \in 1..3 |-> 0]]
          ELSE [i \in 1..3 |-> [j \in 1..3 |-> B[n - 1][i][j] + v2[n][i] * v1[n][j]]]
    IN  B[Len(v1)]
Davenport(B) ==
    LET tr == B[1][1] + B[2][2] + B[3][3]
        z == <<B[3][2] - B[2][3], B[1][3] - B[3][1], B[2][1] - B[1][2]>>
    IN  << <<tr, z[1], z[2], z[3]>>,
           <<z[1], 2*B[1][1] - tr, B[1][2] + B[2][1], B[1][3] + B[3][1]>>,
           <<z[2], B[1][2] + B[2][1], 2*B[2][2] - tr, B[2][3] + B[3][2]>>,
           <<z[3], B[1][3] + B[3][1], B[2][3] + B[3][2], 2*B[3][3] - tr>> >>
Form(v1, v2) == Davenport(Corr(v1, v2))

SumV(vs) == LET s[k \in 0..Len(vs)] == IF k = 0 THEN <<0, 0, 0>>
                ELSE <<s[k - 1][1] + vs[k][1], s[k - 1][2] + vs[k][2], s[k - 1][3] + vs[k][3]>>
            IN  s[Len(vs)]
Centre(vs) == LET n == Len(vs) s == SumV(vs)
              IN  [k \in 1..n |-> <<n*vs[k][1] - s[1], n*vs[k][2] - s[2], n*vs[k][3] - s[3]>>]
MeanV(vs) == LET s == SumV(vs) IN Vec(s[1], s[2], s[3], Len(vs))

(* op = [v1, v2, cand]: v1, v2 sequences of <<x, y, z>> over a common       *)
(* denominator (scale drops out of the rotation)                            *)
BestRotation(op) ==
    IF Len(op.v1) # Len(op.v2) THEN Errs
    ELSE [res |-> "ok", rot |-> Maximiser(Form(op.v1, op.v2), op.cand)]
BestTransform(op) ==
    IF Len(op.v1) # Len(op.v2) THEN Errs
    ELSE LET r == Maximiser(Form(Centre(op.v1), Centre(op.v2)), op.cand)
         IN  [res |-> "ok", rot |-> r, m1 |-> MeanV(op.v1), m2 |-> MeanV(op.v2),
              t |-> IF r.cert THEN VSub(MeanV(op.v2), Rotate(r.m, MeanV(op.v1))) ELSE VZero]

(* Iterative closest point: op = [v1, v2, init [t, r] , cand].  If every    *)
(* point of v1, moved by the initial guess, has a unique nearest neighbour  *)
(* in v2 and one rigid motion maps all of v1 onto these, that motion is the *)
(* result; anything else is not specified (up to a proper rotation).        *)
Moved(op) == [k \in 1..Len(op.v1) |->
                 VAdd(Rotate(op.init.r, <<op.v1[k][1], op.v1[k][2], op.v1[k][3], 1>>), op.init.t)]
Dist2(p, v) == LET d == VSub(p, <<v[1], v[2], v[3], 1>>) IN VDot(d, d)
NearestIn(p, v2) == {j \in 1..Len(v2) : \A k \in 1..Len(v2) : RLe(Dist2(p, v2[j]), Dist2(p, v2[k]))}
Icp(op) ==
    LET mv == Moved(op)
        near == [k \in 1..Len(mv) |-> NearestIn(mv[k], op.v2)]
        uniq == \A k \in 1..Len(mv) : Cardinality({op.v2[j] : j \in near[k]}) = 1
        c2 == [k \in 1..Len(mv) |-> op.v2[CHOOSE j \in near[k] : TRUE]]
        fit == BestTransform([v1 |-> op.v1, v2 |-> c2, cand |-> op.cand])
        exact == \A k \in 1..Len(op.v1) :
                   VAdd(Rotate(fit.rot.m, <<op.v1[k][1], op.v1[k][2], op.v1[k][3], 1>>), fit.t)
                     = Vec(c2[k][1], c2[k][2], c2[k][3], 1)
    IN  IF uniq /\ fit.rot.cert /\ exact THEN [res |-> "ok", t |-> fit.t, r |-> fit.rot.m]
        ELSE [res |-> "any"]

(* Shortest arc: op = [v1, v2] single vectors, not zero.  The rotation q    *)
(* turns the direction of v1 onto that of v2 about an axis orthogonal to    *)
(* both, which makes the angle the smallest possible.  Its scalar part      *)
(* squared is (1 + cos) / 2.  For opposite vectors the axis is free.        *)
Arc(v1, v2) ==
    LET d == Dot(v1, v2) c == Cross(v1, v2) n == Dot(v1, v1) * Dot(v2, v2)
    IN  [opposite |-> c = <<0, 0, 0>> /\ d < 0,
         dot |-> d, cross |-> c, n |-> n]
ShortestArc(op) == [res |-> "ok", el |-> [k \in 1..Len(op.v1) |-> Arc(op.v1[k], op.v2[k])]]
=============================================================================
