------------------------------ MODULE MCSmooth -----------------------------
(* All patterns of corrections on short recordings: suppressing the samples *)
(* with large second-order differences and interpolating gives the velocity *)
(* of the motion without corrections wherever Smooth.tla says so, whichever *)
(* of the two readings of "samples with a large second-order difference" is *)
(* implemented (centred at the sample; or at the sample or the next one).   *)
EXTENDS Smooth, Json

CONSTANTS N, Sizes, Curves, Thresh
VARIABLE off
Init == off = << >>
Jump == Sizes \cup {0} \cup {-x : x \in Sizes}
(* a jump (from this sample on) or a spike (this sample only) *)
Prev == IF off = <<>> THEN 0 ELSE off[Len(off)].base
Next == /\ Len(off) < N
        /\ \E j \in Jump, s \in Jump :
             /\ (off = <<>> => j = 0)
             /\ (j # 0 => s = 0)
             /\ off' = Append(off, [base |-> Prev + j, val |-> Prev + j + s])
Spec == Init /\ [][Next]_off
Full == Len(off) = N
Col(e) == [a |-> <<1, 0, 2>>, d |-> <<-2, 1, 3>>, e |-> <<e, 0, 0>>,
           off |-> [k \in 1..N |-> <<off[k].val, 0, 0>>]]

(* along x, everything is exact *)
Pos(c, k) == c.a[1] + c.d[1] * k + c.e[1] * k * k + c.off[k][1]
Grad(c, k) == IF k = 1 THEN RInt(Pos(c, 2) - Pos(c, 1))
              ELSE IF k = N THEN RInt(Pos(c, N) - Pos(c, N - 1))
              ELSE Rat(Pos(c, k + 1) - Pos(c, k - 1), 2)
Norm(c, k) == IF k \in Inner(N) THEN Abs(Diff2(c, k)[1]) ELSE 0
Kept(c, reading) == {k \in 1..N : IF reading = 1 THEN Norm(c, k) <= Thresh
                                  ELSE Norm(c, k) + (IF k < N THEN Norm(c, k + 1) ELSE 0) <= Thresh}
Interpolated(c, kept, k) ==
    LET lo == CHOOSE i \in kept : i <= k /\ \A j \in kept : j <= k => j <= i
        hi == CHOOSE i \in kept : i >= k /\ \A j \in kept : j >= k => j >= i
    IN  IF lo = hi THEN Grad(c, lo)
        ELSE RAdd(Grad(c, lo), RMul(RSub(Grad(c, hi), Grad(c, lo)), Rat(k - lo, hi - lo)))
Theorem(c) ==
    Clear(c, Thresh) =>
      LET r == LinColumn(c, 1, Thresh, QOne)
      IN  \A reading \in 1..2 : \A k \in 1..N :
            r[k].known => Interpolated(c, TLCEval(Kept(c, reading)), k) = VComp(EvalQ(r[k].v), 1)
Theorems == Full => \A e \in Curves : Theorem(Col(e))
Cases == {e \in Curves : Clear(Col(e), Thresh) /\ \E k \in 1..N : Clean(Col(e), k)}
Emit == (Full /\ Cases # {}) =>
    \A e \in Cases : PrintT("K " \o ToJson([col |-> Col(e), want |-> LinColumn(Col(e), 1, Thresh, QOne)]))
=============================================================================
