-------------------------------- MODULE MCAlg ------------------------------
(* Theorems about the quaternion algebra and the estimators on all small    *)
(* operands; the operands and results are emitted to be replayed.           *)
EXTENDS Estimate, Json

CONSTANT M
VARIABLE s

Q(k) == {q \in [1..4 -> -k..k] : q # [i \in 1..4 |-> 0]}
Small == Q(1)
Vs == {<<1, 2, -3, 1>>, <<0, 1, 1, 2>>}
QVof(q) == QV(q[1], q[2], q[3], q[4], 1)

(* point sets of rank two and three *)
Clouds == { << <<1, 0, 0>>, <<0, 1, 0>> >>,
            << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>,
            << <<1, 2, 0>>, <<-1, 1, 0>>, <<0, -1, 0>>, <<2, 2, 0>> >>,
            << <<1, 1, 1>>, <<-1, 0, 2>>, <<0, -2, 1>>, <<0, 1, -1>> >>,
            << <<0, 1, 1>>, <<0, 2, -1>>, <<0, -3, 0>> >> }
Rotations == {QPrim(q) : q \in Q(M)}
Shifts == {<<0, 0, 0>>, <<2, -1, 3>>}
(* k * P and k * (R P) + t for the rotation r with k = r . r *)
Times(k, vs) == [i \in 1..Len(vs) |-> <<k * vs[i][1], k * vs[i][2], k * vs[i][3]>>]
Turn(r, v, t) ==
    LET w == Rotate(r, <<v[1], v[2], v[3], 1>>) k == QNorm2(r)
    IN  <<w[1] * (k \div w[4]) + t[1], w[2] * (k \div w[4]) + t[2], w[3] * (k \div w[4]) + t[3]>>
Turned(r, vs, t) == [i \in 1..Len(vs) |-> Turn(r, vs[i], t)]

Init == \/ s \in {[k |-> "M", a |-> QVof(a), b |-> QVof(b), v |-> v] :
                    a \in Q(M), b \in Small, v \in Vs}
        \/ s \in {[k |-> "F", r |-> r, c |-> c, t |-> t] :
                    r \in Rotations, c \in Clouds, t \in Shifts}
        \/ s \in {[k |-> "N", m |-> r, h |-> h] :
                    r \in Rotations, h \in {<<2, 1, 0, 0>>, <<3, 0, 1, 0>>, <<3, 1, 1, 1>>, <<3, 0, 0, -1>>}}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s

V1 == Times(QNorm2(s.r), s.c)
V2(t) == Turned(s.r, s.c, t)
RotOp == [v1 |-> V1, v2 |-> V2(<<0, 0, 0>>), cand |-> s.r]
(* the same sets with both kinds of estimator *)
TrOp == [v1 |-> V1, v2 |-> V2(s.t), cand |-> s.r]

SumDots(v1, v2, m) ==
    LET f[k \in 0..Len(v1)] == IF k = 0 THEN RZero
          ELSE RAdd(f[k - 1], VDot(<<v2[k][1], v2[k][2], v2[k][3], 1>>,
                                   Rotate(m, <<v1[k][1], v1[k][2], v1[k][3], 1>>)))
    IN  f[Len(v1)]

Fit1 == BestRotation(RotOp)
Fit2 == BestTransform(TrOp)
Conj(h) == <<h[1], -h[2], -h[3], -h[4]>>

Theorems ==
    CASE s.k = "M" ->
           /\ QVMul(s.a, QVInv(s.a)) = QVOne /\ QVMul(QVInv(s.a), s.a) = QVOne
           /\ QVInv(QVMul(s.a, s.b)) = QVMul(QVInv(s.b), QVInv(s.a))
           /\ \A c \in {<<1, -1, 2, 0, 1>>, <<0, 1, 0, 1, 2>>} :
                QVMul(QVMul(s.a, s.b), c) = QVMul(s.a, QVMul(s.b, c))
           /\ Rotate(Rotor(QVMul(s.a, s.b)), s.v) = Rotate(Rotor(s.a), Rotate(Rotor(s.b), s.v))
           /\ VDot(Rotate(Rotor(s.a), s.v), Rotate(Rotor(s.a), s.v)) = VDot(s.v, s.v)
           /\ Rotate(Rotor(QV(-3 * s.a[1], -3 * s.a[2], -3 * s.a[3], -3 * s.a[4], 1)), s.v)
                = Rotate(Rotor(s.a), s.v)
      [] s.k = "F" ->
           \* the true motion is the unique optimum, and the value of the
           \* form is the sum of the inner products
           /\ Fit1.rot.cert
           /\ Len(s.c) > 2 => Fit2.rot.cert /\
                Fit2.t = <<s.t[1], s.t[2], s.t[3], 1>>
           /\ \A m \in {<<1, 0, 0, 0>>, <<1, 2, 0, -1>>, s.r} :
                RInt(QF(Form(V1, V2(s.t)), m)) = RMul(RInt(QNorm2(m)), SumDots(V1, V2(s.t), m))
      [] s.k = "N" ->
           LET qs == <<s.m, QPrim(QMulRaw(s.m, s.h)), QPrim(QMulRaw(s.m, Conj(s.h)))>>
           IN  Certifies(MatRed(MeanForm(qs)), s.m)
Emit ==
    CASE s.k = "M" -> PrintT("M " \o ToJson([a |-> s.a, b |-> s.b, v |-> s.v, ab |-> QVMul(s.a, s.b),
                          inv |-> QVInv(s.a), rv |-> Rotate(Rotor(QVMul(s.a, s.b)), s.v)]))
      [] s.k = "F" -> PrintT("F " \o ToJson([v1 |-> V1, v2 |-> V2(s.t), cand |-> s.r,
                          bfr |-> BestRotation([v1 |-> V1, v2 |-> V2(s.t), cand |-> s.r]),
                          bft |-> Fit2]))
      [] OTHER -> TRUE
=============================================================================
