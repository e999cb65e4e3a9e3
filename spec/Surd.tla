-------------------------------- MODULE Surd -------------------------------
(* Numbers n/d * sqrt(b), b square-free: exact values of lengths and of     *)
(* sines and cosines of angles given by a direction in the plane.           *)
EXTENDS Rat

\* <<k, s>> with b = k^2 * s, s square-free
RECURSIVE SqFrom(_, _, _)
SqFrom(b, k, i) == IF i * i > b THEN <<k, b>>
                   ELSE IF b % (i * i) = 0 THEN SqFrom(b \div (i * i), k * i, i)
                   ELSE SqFrom(b, k, i + 1)
SqFree(b) == SqFrom(b, 1, 2)

\* (n/d) sqrt(b)
Surd(n, d, b) ==
    IF n = 0 \/ b = 0 THEN <<0, 1, 1>>
    ELSE LET q == SqFree(b) r == Rat(n * q[1], d) IN <<r[1], r[2], q[2]>>
SRat(r) == Surd(r[1], r[2], 1)
SInt(n) == Surd(n, 1, 1)
SMul(a, b) == LET r == RMul(<<a[1], a[2]>>, <<b[1], b[2]>>)
              IN  Surd(r[1], r[2], a[3] * b[3])
SNeg(a) == <<-a[1], a[2], a[3]>>
SSq(a) == LET r == RMul(<<a[1], a[2]>>, <<a[1], a[2]>>) \* a rational
          IN  RMul(r, RInt(a[3]))
\* square root of a non-negative rational
SSqrt(r) == Surd(1, r[2], r[1] * r[2])
SInv(a) == LET r == RInv(<<a[1] * a[3], a[2]>>) IN Surd(r[1], r[2], a[3])
SZero == <<0, 1, 1>>
SOne == <<1, 1, 1>>

(* An angle is a direction <<c, s>> of surds, not both zero *)
AngNorm(a) == SSqrt(RAdd(SSq(a[1]), SSq(a[2])))
Cos(a) == SMul(a[1], SInv(AngNorm(a)))
Sin(a) == SMul(a[2], SInv(AngNorm(a)))
SameAngle(a, b) == Cos(a) = Cos(b) /\ Sin(a) = Sin(b)
=============================================================================
