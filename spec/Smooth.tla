------------------------------- MODULE Smooth ------------------------------
(* Outlier suppression and low-pass filtering of estimated velocities (C27) *)
(* Samples k = 1..n are h ticks apart.  A column of positions is            *)
(*   p(k) = a + d k + e k^2 + off[k]         (integer vectors)              *)
(* where off holds the corrections a tracker introduces: jumps and spikes.  *)
(* A column of orientations is the rotation about the axis ax by            *)
(* (m k + off[k]) u (integers).  A sample is an outlier if the norm of the  *)
(* second-order difference there is above the threshold; the estimate       *)
(* replaces outliers by interpolation, so that where the motion is          *)
(* undisturbed before and after, the result is the velocity of the motion   *)
(* without the corrections.                                                 *)
EXTENDS Terms, FiniteSets

At(off, k) == off[k]
VI(a, s, b) == [i \in 1..3 |-> a[i] + s * b[i]]
N2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Z3 == <<0, 0, 0>>

(* second-order difference of the corrections / of the positions *)
OffDiff(off, k) == [i \in 1..3 |-> off[k + 1][i] - 2 * off[k][i] + off[k - 1][i]]
Diff2(c, k) == VI(OffDiff(c.off, k), 2, c.e)
Inner(n) == 2..(n - 1)
(* inputs of which it is clear what has to be suppressed *)
Clear(c, thresh) ==
    LET n == Len(c.off)
    IN  \A k \in Inner(n) :
          IF OffDiff(c.off, k) # Z3 THEN N2(Diff2(c, k)) > thresh * thresh
          ELSE 16 * N2(c.e) < thresh * thresh /\ c.off[k - 1] = c.off[k + 1]
(* the motion around a sample is undisturbed and its derivative by finite   *)
(* differences is that of the motion without corrections                    *)
Clean(c, k) ==
    LET n == Len(c.off)
        calm(j) == j \in Inner(n) => OffDiff(c.off, j) = Z3 /\ c.off[j - 1] = c.off[j + 1]
    IN  /\ \A j \in {k - 1, k, k + 1} : calm(j)
        /\ k \in {1, n} => c.e = Z3
Known(n, clean, k) == \E i, j \in clean : i <= k /\ k <= j
Velocity(c, k, h) == TScale(Rat(1, h), TV(Vec(c.d[1] + 2 * k * c.e[1], c.d[2] + 2 * k * c.e[2],
                                              c.d[3] + 2 * k * c.e[3], 1)))

Entry(known, v) == [known |-> known, v |-> v]
LinColumn(c, h, thresh, q) ==
    LET n == Len(c.off)
        clean == TLCEval({k \in 1..n : Clean(c, k)})
    IN  [k \in 1..n |-> Entry(Known(n, clean, k), TRot(FConst(q), Velocity(c, k, h)))]
(* q: orientation of the frame the positions are given in *)
SmoothLin(o) ==
    IF \E i \in 1..Len(o.cols) : ~Clear(o.cols[i], o.thresh) THEN [res |-> "any"]
    ELSE [res |-> "ok", cols |-> [i \in 1..Len(o.cols) |-> LinColumn(o.cols[i], o.h, o.thresh, o.q)]]

(* orientations: the rate is known everywhere between undisturbed samples   *)
(* if it is the gradient of the rotation vector, otherwise (derivative of   *)
(* the quaternion, by a spline) at samples far from any correction          *)
Far == 14
AngColumn(c, h, thresh, q, rv) ==
    LET n == Len(c.off)
        lift == [off |-> [k \in 1..n |-> <<c.off[k], 0, 0>>], e |-> Z3]
        clean == TLCEval({k \in 1..n : Clean(lift, k)})
        far == TLCEval({k \in 1..n : \A j \in 1..n : Abs(j - k) <= Far => c.off[j] = c.off[k]})
    IN  [k \in 1..n |-> Entry(IF rv THEN Known(n, clean, k) ELSE k \in far,
                              TRot(FConst(q), TScale(Rat(1, h), TRate(c.ax, c.m))))]
SmoothAng(o) ==
    IF \E i \in 1..Len(o.cols) :
         LET c == o.cols[i]
             n == Len(c.off)
         IN  \/ ~Clear([off |-> [k \in 1..n |-> <<c.off[k], 0, 0>>], e |-> Z3], o.thresh)
             \/ \E k \in 1..n : Abs(c.m * k + c.off[k]) > 300
    THEN [res |-> "any"]
    ELSE [res |-> "ok", cols |-> [i \in 1..Len(o.cols) |-> AngColumn(o.cols[i], o.h, o.thresh, o.q, o.rv)]]

(* A low-pass filter with cutoff num/den (of the Nyquist frequency) keeps   *)
(* what is constant, everywhere, and far from the ends removes an           *)
(* oscillation with a period of four samples (half the Nyquist frequency)   *)
(* if the cutoff is far below that and keeps it if it is far above.         *)
(*   p(k) = a + d k + amp * <<0, 1, 0, -1>>[k mod 4]                        *)
(* rotations as above, without corrections                                  *)
Margin == 200
FiltColumn(o, c) ==
    LET n == o.n
        low == 5 * o.cut[1] <= o.cut[2]
        still == c.amp = Z3
        wave(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
        v(k) == VI(c.d, IF low THEN 0 ELSE wave(k), c.amp)
    IN  [k \in 1..n |->
            Entry(still \/ (Margin < k /\ k <= n - Margin),
                  TRot(FConst(o.q), TScale(Rat(1, o.h), TV(Vec(v(k)[1], v(k)[2], v(k)[3], 1)))))]
FiltLin(o) ==
    LET low == 5 * o.cut[1] <= o.cut[2]
        high == 5 * o.cut[1] >= 4 * o.cut[2]
        still == \A i \in 1..Len(o.cols) : o.cols[i].amp = Z3
    IN  IF ~still /\ ~low /\ ~high THEN [res |-> "any"]
        ELSE [res |-> "ok", cols |-> [i \in 1..Len(o.cols) |-> FiltColumn(o, o.cols[i])]]
(* rotation by the angle m k + amp * <<0, 1, 0, -1>>[k mod 4] about a fixed *)
(* axis                                                                     *)
FiltAng(o) ==
    LET low == 5 * o.cut[1] <= o.cut[2]
        high == 5 * o.cut[1] >= 4 * o.cut[2]
        still == \A i \in 1..Len(o.cols) : o.cols[i].amp = 0
        wave(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
        \* the rotation vector within less than one turn
        near == \A i \in 1..Len(o.cols) : Abs(o.cols[i].m) * o.n + Abs(o.cols[i].amp) <= 300
    IN  IF (o.rv /\ ~near) \/ (~still /\ ~low /\ ~(high /\ o.rv)) THEN [res |-> "any"]
        ELSE [res |-> "ok",
              cols |-> [i \in 1..Len(o.cols) |->
                 LET c == o.cols[i]
                 IN  [k \in 1..o.n |->
                        Entry(c.amp = 0 \/ (Margin < k /\ k <= o.n - Margin),
                              TRot(FConst(o.q), TScale(Rat(1, o.h),
                                   TRate(c.ax, c.m + (IF low THEN 0 ELSE wave(k) * c.amp)))))]]]
=============================================================================
