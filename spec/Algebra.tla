------------------------------- MODULE Algebra -----------------------------
(* Quaternion utilities on arrays (C17).  Arrays of items are               *)
(* [sh |-> shape, el |-> items in row-major order]: where the axis of the   *)
(* components is and whether the items are of quaternion dtype does not     *)
(* matter.  A quaternion value is <<w, x, y, z, d>>, d > 0, reduced.        *)
EXTENDS Labels

QV(w, x, y, z, d) ==
    LET g == Gcd(Gcd(Gcd(w, x), Gcd(y, z)), d)
        s == IF d < 0 THEN -1 ELSE 1
    IN  <<s * (w \div g), s * (x \div g), s * (y \div g), s * (z \div g), s * (d \div g)>>
QVMul(a, b) == LET q == QMulRaw(a, b) IN QV(q[1], q[2], q[3], q[4], a[5] * b[5])
QVInv(a) == LET n == QNorm2(a)
            IN  QV(a[1] * a[5], -a[2] * a[5], -a[3] * a[5], -a[4] * a[5], n)
QVOne == <<1, 0, 0, 0, 1>>
Rotor(a) == QPrim(<<a[1], a[2], a[3], a[4]>>) \* the rotation it stands for

Errs == [res |-> "err"]

---------------------------------------------------------------------------
(* Broadcasting: shapes are aligned at their ends *)
Dim(sh, n, k) == LET j == k - (n - Len(sh)) IN IF j < 1 THEN 1 ELSE sh[j]
Compatible(a, b) ==
    LET n == Max2(Len(a), Len(b))
    IN  \A k \in 1..n : Dim(a, n, k) = Dim(b, n, k) \/ Dim(a, n, k) = 1 \/ Dim(b, n, k) = 1
BShape(a, b) ==
    LET n == Max2(Len(a), Len(b))
    IN  [k \in 1..n |-> IF Dim(a, n, k) = 1 THEN Dim(b, n, k) ELSE Dim(a, n, k)]
\* the index (1-based) into an array of shape sh for position m (1-based) of shape big
BIdx(sh, big, m) ==
    LET n == Len(big)
        f[k \in 0..n] ==
          IF k = 0 THEN 0
          ELSE LET i == ((m - 1) \div Prod(SubSeq(big, k + 1, n))) % big[k]
                   j == k - (n - Len(sh))
               IN  IF j < 1 THEN f[k - 1]
                   ELSE f[k - 1] * sh[j] + (IF sh[j] = 1 THEN 0 ELSE i)
    IN  f[n] + 1
BItem(A, big, m) == A.el[BIdx(A.sh, big, m)]

---------------------------------------------------------------------------
RECURSIVE MulAll(_, _)
MulAll(P, rest) ==
    IF rest = <<>> THEN P
    ELSE LET B == Head(rest)
             sh == BShape(P.sh, B.sh)
         IN  IF ~Compatible(P.sh, B.sh) THEN Errs
             ELSE MulAll([res |-> "ok", sh |-> sh,
                          el |-> [m \in 1..Prod(sh) |-> QVMul(BItem(P, sh, m), BItem(B, sh, m))]],
                         Tail(rest))
(* qmul(q1, q2, ...): op = [arrs, mixed] *)
Mul(op) == IF Len(op.arrs) < 2 \/ op.mixed THEN Errs
           ELSE MulAll([res |-> "ok", sh |-> op.arrs[1].sh, el |-> op.arrs[1].el], Tail(op.arrs))
Inv(op) == [res |-> "ok", sh |-> op.a.sh, el |-> [m \in 1..Len(op.a.el) |-> QVInv(op.a.el[m])]]

(* rotate_vectors: op = [q, v, one, n (components of v)]; independent of the quaternions' scale *)
RotateArr(op) ==
    LET q == op.q v == op.v
        sh == BShape(q.sh, v.sh)
    IN  IF op.n # 3 THEN Errs
        ELSE IF q.sh = <<>>
        THEN [res |-> "ok", sh |-> v.sh, el |-> [m \in 1..Len(v.el) |-> Rotate(Rotor(q.el[1]), v.el[m])]]
        ELSE IF ~op.one
        THEN [res |-> "ok", sh |-> q.sh \o v.sh,
              el |-> [m \in 1..Len(q.el) * Len(v.el) |->
                        Rotate(Rotor(q.el[((m - 1) \div Len(v.el)) + 1]),
                               v.el[((m - 1) % Len(v.el)) + 1])]]
        ELSE IF Len(q.sh) # Len(v.sh) \/ ~Compatible(q.sh, v.sh) THEN Errs
        ELSE [res |-> "ok", sh |-> sh,
              el |-> [m \in 1..Prod(sh) |-> Rotate(Rotor(BItem(q, sh, m)), BItem(v, sh, m))]]

---------------------------------------------------------------------------
(* Quadratic forms: symmetric 4x4 integer matrices N.  The unit quaternion  *)
(* that maximises q^T N q is an eigenvector for the largest eigenvalue.     *)
I4 == 1..4
QF(N, q) == LET r(i) == N[i][1]*q[1] + N[i][2]*q[2] + N[i][3]*q[3] + N[i][4]*q[4]
            IN  q[1]*r(1) + q[2]*r(2) + q[3]*r(3) + q[4]*r(4)
MatGcd(N) == LET g[k \in 0..16] == IF k = 0 THEN 0
                 ELSE Gcd(g[k - 1], N[((k - 1) \div 4) + 1][((k - 1) % 4) + 1])
             IN  Max2(1, g[16])
MatRed(N) == LET g == MatGcd(N) IN [i \in I4 |-> [j \in I4 |-> N[i][j] \div g]]
MatAdd(A, B) == [i \in I4 |-> [j \in I4 |-> A[i][j] + B[i][j]]]
MatZero == [i \in I4 |-> [j \in I4 |-> 0]]
Outer(q, c) == [i \in I4 |-> [j \in I4 |-> c * q[i] * q[j]]]

(* exactly: 3x3 positive definite (Sylvester), rows scaled by their gcd *)
RowRed(r) == LET g == Max2(1, Gcd(Gcd(r[1], r[2]), r[3])) IN <<r[1] \div g, r[2] \div g, r[3] \div g>>
PD3(A) ==
    LET a == RowRed(A[1])
        elim(r) == RowRed(<<0, a[1]*r[2] - r[1]*a[2], a[1]*r[3] - r[1]*a[3]>>)
        b == elim(RowRed(A[2]))
        c == elim(RowRed(A[3]))
        e == b[2]*c[3] - c[2]*b[3]
    IN  a[1] > 0 /\ b[2] > 0 /\ e > 0
(* m is, up to its sign, the only maximiser of the form: with k = m.m and   *)
(* l = m^T N m, the matrix l I - k N maps m to 0 and is positive definite   *)
(* on a complement of m                                                     *)
Certifies(N, m) ==
    LET k == QNorm2(m)
        l == QF(N, m)
        M == [i \in I4 |-> [j \in I4 |-> (IF i = j THEN l ELSE 0) - k * N[i][j]]]
        p == CHOOSE i \in I4 : m[i] # 0
        R == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i : i # p)
    IN  /\ \A i \in I4 : M[i][1]*m[1] + M[i][2]*m[2] + M[i][3]*m[3] + M[i][4]*m[4] = 0
        /\ PD3([i \in 1..3 |-> [j \in 1..3 |-> M[R[i]][R[j]]]])

(* competitors for forms whose maximiser is not rational *)
Cands == {q \in [I4 -> -1..1] : \E i \in I4 : q[i] = 1 /\ \A j \in 1..i - 1 : q[j] = 0}
BestCand(N) ==
    LET val(q) == Rat(QF(N, q), QNorm2(q))
    IN  val(CHOOSE q \in Cands : \A c \in Cands : RLe(val(c), val(q)))

(* what is known about the maximiser: m if certified, else the form itself  *)
Maximiser(N, m) ==
    LET R == MatRed(N)
    IN  IF m # <<>> /\ Certifies(R, m) THEN [cert |-> TRUE, m |-> m, form |-> R, best |-> RZero]
        ELSE [cert |-> FALSE, m |-> QOne, form |-> R, best |-> BestCand(R)]

(* qmean: op = [a (rotations), axes (1-based, reduced), cand]: the mean of  *)
(* a set maximises the sum of squared inner products with its (unit) members*)
Lcm(a, b) == (a \div Gcd(a, b)) * b
MeanForm(qs) ==
    LET L[k \in 0..Len(qs)] == IF k = 0 THEN 1 ELSE Lcm(L[k - 1], QNorm2(qs[k]))
        N[k \in 0..Len(qs)] == IF k = 0 THEN MatZero
            ELSE MatAdd(N[k - 1], Outer(qs[k], L[Len(qs)] \div QNorm2(qs[k])))
    IN  N[Len(qs)]
Unravel(sh, m, k) == ((m - 1) \div Prod(SubSeq(sh, k + 1, Len(sh)))) % sh[k]
Mean(op) ==
    LET sh == op.a.sh
        kept == SelectSeq([k \in 1..Len(sh) |-> k], LAMBDA k : ~ \E j \in 1..Len(op.axes) : op.axes[j] = k)
        out == [k \in 1..Len(kept) |-> sh[kept[k]]]
        members(m) == SelectSeq([i \in 1..Len(op.a.el) |-> i],
                        LAMBDA i : \A k \in 1..Len(kept) : Unravel(sh, i, kept[k]) = Unravel(out, m, k))
    IN  [res |-> "ok", sh |-> out,
         el |-> [m \in 1..Prod(out) |->
                   LET g == members(m)
                   IN  Maximiser(MeanForm([i \in 1..Len(g) |-> op.a.el[g[i]]]), op.cand[m])]]

---------------------------------------------------------------------------
(* qinterp: op = [arr (Lookup.tla, has = q = TRUE), out (ticks)] *)
Interp(op) ==
    LET arr == op.arr
        n == Len(op.out)
        rsh == [arr.rsh EXCEPT ![arr.tpos] = n]
        st == Stride(rsh, arr.tpos)
    IN  [res |-> "ok", rsh |-> rsh,
         vecs |-> [m \in 1..Prod(rsh) |->
                     LET a0 == (m - 1) % st
                         k == (((m - 1) \div st) % n) + 1
                         b0 == (m - 1) \div (st * n)
                         r == Resampled(arr, b0, a0, op.out[k])
                     IN  IF r.ok THEN r.v ELSE <<>>]]
(* the labelled form: coordinates as in Labels.tla *)
InterpLabelled(op) ==
    LET da == op.da
        tdim == da.rdims[da.arr.tpos]
    IN  Interp([arr |-> da.arr, out |-> op.out]) @@
        [coords |-> [i \in 1..Len(da.coords) |->
            LET c == da.coords[i]
                shape == [d \in 1..Len(c.dims) |->
                            IF c.dims[d] = da.sdim THEN 4
                            ELSE da.arr.rsh[DimIndex(da.rdims, c.dims[d])]]
            IN  [n |-> c.n, vals |->
                   IF tdim \in ToSet(c.dims)
                   THEN ResampleCoord(c, shape, DimIndex(c.dims, tdim), da.arr.ts, op.out)
                   ELSE [m \in 1..Len(c.vals) |-> RInt(c.vals[m])]]]]

---------------------------------------------------------------------------
(* from_euler_angles: op = [roll, pitch, yaw (arrays [sh, el] or [sh |->    *)
(* <<-1>>] if absent), order, rpy].  An angle <<m, n>> is 2 atan2(n, m); the *)
(* rotations are chained in the given order, each in the axes moved by the  *)
(* previous ones.                                                           *)
Absent(A) == A.sh = <<-1>>
Axis(l, a) == CASE l = "r" -> <<a[1], a[2], 0, 0>>
                [] l = "p" -> <<a[1], 0, a[2], 0>>
                [] l = "y" -> <<a[1], 0, 0, a[2]>>
Euler(op) ==
    LET A == [r |-> op.roll, p |-> op.pitch, y |-> op.yaw]
        there == {l \in {"r", "p", "y"} : ~Absent(A[l])}
        sh == A[CHOOSE l \in there : TRUE].sh
        q(l, m) == IF l \in there THEN Axis(l, A[l].el[m]) ELSE QOne
    IN  IF there = {} THEN Errs
        ELSE IF \E l \in there : A[l].sh # sh THEN Errs
        ELSE IF op.both THEN Errs \* rpy and separate angles
        ELSE IF Len(op.order) # 3 \/ ToSet(op.order) # {"r", "p", "y"} THEN Errs
        ELSE [res |-> "ok", sh |-> sh,
              el |-> [m \in 1..Prod(sh) |->
                        QMul(QMul(q(op.order[1], m), q(op.order[2], m)), q(op.order[3], m))]]
=============================================================================
