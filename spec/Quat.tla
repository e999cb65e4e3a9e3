-------------------------------- MODULE Quat -------------------------------
(* Rotations as primitive integer quaternions: the quaternion (w,x,y,z) of  *)
(* integers stands for the rotation by its normalised value; q and k*q are  *)
(* the same rotation (k # 0).  Rotation matrices are exactly rational.      *)
EXTENDS Rat

QOne == <<1, 0, 0, 0>>

QMulRaw(a, b) ==
    << a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
       a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
       a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
       a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>
QNorm2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
QConj(q) == <<q[1], -q[2], -q[3], -q[4]>>

(* canonical representative: primitive, first non-zero component positive *)
QPrim(q) ==
    LET g == Gcd(Gcd(q[1], q[2]), Gcd(q[3], q[4]))
        f == IF q[1] # 0 THEN q[1] ELSE IF q[2] # 0 THEN q[2]
             ELSE IF q[3] # 0 THEN q[3] ELSE q[4]
        s == IF f < 0 THEN -1 ELSE 1
    IN  << s * (q[1] \div g), s * (q[2] \div g),
           s * (q[3] \div g), s * (q[4] \div g) >>
QMul(a, b) == QPrim(QMulRaw(a, b))
QInv(a) == QPrim(QConj(a))
QSame(a, b) == QPrim(a) = QPrim(b)

RECURSIVE QPow(_, _)
QPow(q, n) == IF n = 0 THEN QOne
              ELSE IF n < 0 THEN QPow(QInv(q), -n)
              ELSE IF n % 2 = 1 THEN QMul(q, QPow(q, n - 1))
              ELSE LET r == QPow(q, n \div 2) IN QMul(r, r)

(* a rotation by h per tick does not exceed a half turn within n ticks, so   *)
(* that it is the shortest way between the ends: cos(k theta / 2) > 0         *)
QRed(q) == LET g == Gcd(Gcd(q[1], q[2]), Gcd(q[3], q[4]))
           IN  <<q[1] \div g, q[2] \div g, q[3] \div g, q[4] \div g>>
StepOk(h, n) ==
    LET P[k \in 0..n] == IF k = 0 THEN QOne ELSE QRed(QMulRaw(h, P[k - 1]))
    IN  \A k \in 0..n : P[k][1] > 0
RateOk(h, ts) == \A k \in 1..Len(ts) - 1 : StepOk(h, ts[k + 1] - ts[k])

(* |q|^2 times the rotation matrix, row by row *)
QMat(q) ==
    LET w == q[1] x == q[2] y == q[3] z == q[4]
    IN  << << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y) >>,
           << 2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x) >>,
           << 2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >> >>

Rotate(q, v) ==
    LET m == QMat(q)
    IN  Vec(m[1][1]*v[1] + m[1][2]*v[2] + m[1][3]*v[3],
            m[2][1]*v[1] + m[2][2]*v[2] + m[2][3]*v[3],
            m[3][1]*v[1] + m[3][2]*v[2] + m[3][3]*v[3],
            QNorm2(q) * v[4])

(* Rigid transforms (poses): p |-> r p + t.  "?" marks an unspecified value *)
(* (a rotation strictly between two samples of an irregular sequence).      *)
Unspec == "?"
PoseId == [t |-> VZero, r |-> QOne, ok |-> TRUE]
PoseUnspec == [t |-> VZero, r |-> QOne, ok |-> FALSE]
PoseMul(p, q) == \* apply q first, then p
    IF p.ok /\ q.ok
    THEN [t |-> VAdd(Rotate(p.r, q.t), p.t), r |-> QMul(p.r, q.r), ok |-> TRUE]
    ELSE PoseUnspec
PoseInv(p) ==
    IF p.ok THEN [t |-> VNeg(Rotate(QConj(p.r), p.t)), r |-> QInv(p.r), ok |-> TRUE]
    ELSE PoseUnspec
=============================================================================
