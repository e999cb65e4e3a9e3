-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on 32-bit integers.                            *)
(*   rational : <<n, d>>, d > 0, gcd(n, d) = 1                              *)
(*   vector   : <<x, y, z, d>> = (x/d, y/d, z/d), d > 0, fully reduced      *)
(* TLC raises an error on overflow; the harness then drops that scenario.   *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, Abs(a) % Abs(b))

Rat(n, d) == LET g == Gcd(n, d)
                 s == IF d < 0 THEN -1 ELSE 1
             IN  <<s * (n \div g), s * (d \div g)>>
RInt(n) == <<n, 1>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN  Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g),
                      a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == Max2(1, Gcd(a[1], b[2]))
                  g2 == Max2(1, Gcd(b[1], a[2]))
              IN  <<(a[1] \div g1) * (b[1] \div g2),
                    (a[2] \div g2) * (b[2] \div g1)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
RZero == <<0, 1>>
ROne == <<1, 1>>

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSum(Tail(s)))

---------------------------------------------------------------------------
(* vectors with a common denominator *)
Vec(x, y, z, d) ==
    LET g == Gcd(Gcd(x, y), Gcd(z, d))
        s == IF d < 0 THEN -1 ELSE 1
    IN  <<s * (x \div g), s * (y \div g), s * (z \div g), s * (d \div g)>>
VZero == <<0, 0, 0, 1>>
VNeg(v) == <<-v[1], -v[2], -v[3], v[4]>>
VAdd(a, b) == LET g == Gcd(a[4], b[4])
                  p == b[4] \div g
                  q == a[4] \div g
              IN  Vec(a[1]*p + b[1]*q, a[2]*p + b[2]*q, a[3]*p + b[3]*q,
                      a[4]*p)
VSub(a, b) == VAdd(a, VNeg(b))
VScale(r, v) == LET g == Max2(1, Gcd(r[1], v[4]))
                IN  Vec(v[1] * (r[1] \div g), v[2] * (r[1] \div g),
                        v[3] * (r[1] \div g), (v[4] \div g) * r[2])
(* component as a rational *)
VComp(v, i) == Rat(v[i], v[4])
VFrom(a, b, c) == \* vector from three rationals
    LET l1 == (a[2] \div Gcd(a[2], b[2])) * b[2]
        l  == (l1 \div Gcd(l1, c[2])) * c[2]
    IN  Vec(a[1] * (l \div a[2]), b[1] * (l \div b[2]),
            c[1] * (l \div c[2]), l)
VDot(a, b) == RAdd(RMul(VComp(a, 1), VComp(b, 1)),
                   RAdd(RMul(VComp(a, 2), VComp(b, 2)),
                        RMul(VComp(a, 3), VComp(b, 3))))
VCross(a, b) ==
    Vec(a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1],
        a[4]*b[4])
(* a + (b - a) * n/d *)
VLerp(a, b, n, d) == VAdd(a, VScale(Rat(n, d), VSub(b, a)))
=============================================================================
