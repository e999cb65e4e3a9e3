------------------------------- MODULE Request -----------------------------
(* Which requests fit the arrays, axes, timestamps and frames they come     *)
(* with (C28).  Those that do not are rejected; those that do yield an      *)
(* array of the given shape.  Verdicts are [res, sh]: "ok" with the shape   *)
(* of the result, "err", or "any" where the documentation settles nothing.  *)
(*                                                                          *)
(* Axes are numbers as in numpy, Def if omitted.  Numbers of timestamps:    *)
(*   NoTs (omitted), Scalar (a single number), Table (two-dimensional)      *)
EXTENDS Integers, Sequences, FiniteSets

Def == 99
NoTs == -1
Scalar == -2
Table == -3

Good(sh) == [res |-> "ok", sh |-> sh]
Bad == [res |-> "err", sh |-> <<>>]
Any == [res |-> "any", sh |-> <<>>]

(* position of an axis (1, 2, ...) or 0 if there is none *)
Pos(a, nd, default) ==
    LET b == IF a = Def THEN default ELSE a
    IN  IF 0 <= b /\ b < nd THEN b + 1
        ELSE IF b < 0 /\ -nd <= b THEN nd + b + 1
        ELSE 0

(* samples of the moving frame *)
Steps == 9

(* an array without timestamps; mov: one of the frames involved moves *)
Timeless(sh, mov) ==
    IF ~mov THEN Good(sh)
    ELSE IF Len(sh) = 1 THEN Good(<<Steps>> \o sh)
    ELSE Any
(* transforming an array with n components: r = [n, sh, ax, tax, tsn, mov] *)
Transform(r) ==
    LET nd == Len(r.sh)
        sp == Pos(r.ax, nd, -1)
        tm == Pos(r.tax, nd, 0)
    IN  IF sp = 0 THEN Bad
        ELSE IF r.sh[sp] # r.n THEN Bad
        ELSE IF r.tsn = NoTs
        THEN IF r.tax = Def THEN Timeless(r.sh, r.mov) ELSE Any
        ELSE IF r.tsn < 0 \/ tm = 0 \/ tm = sp THEN Bad
        ELSE IF r.sh[tm] # r.tsn THEN Bad
        ELSE Good(r.sh)

(* Labelled arrays: r = [n, sh, ax, tax, dim, ts, coords, mov]              *)
(*   dim    : 0 (omitted) or the number of the dimension it names, Unknown  *)
(*            if there is none                                              *)
(*   ts     : the same, or NoTs (omitted), Off (False), Table (an array)    *)
(*   coords : the dimensions with coordinates                               *)
Unknown == 9
Off == -4
Labelled(r) ==
    LET nd == Len(r.sh)
        sp == IF r.dim # 0 THEN (IF r.dim <= nd THEN r.dim ELSE 0) ELSE Pos(r.ax, nd, -1)
        tm == IF r.ts > 0 THEN (IF r.ts <= nd THEN r.ts ELSE 0) ELSE Pos(r.tax, nd, 0)
        timed == r.ts > 0 \/ (r.ts = NoTs /\ nd > 1)
    IN  IF r.dim # 0 /\ r.ax # Def THEN Bad
        ELSE IF sp = 0 THEN Bad
        ELSE IF r.ts = Table THEN Any
        ELSE IF timed /\ (tm = 0 \/ tm = sp) THEN Bad
        ELSE IF r.sh[sp] # r.n THEN Bad
        ELSE IF ~timed THEN Timeless(r.sh, r.mov)
        ELSE IF tm \notin r.coords THEN (IF r.ts > 0 THEN Bad ELSE Any)
        ELSE Good(r.sh)

(* Estimates of velocities: r = [what, sh, ax, tax, tsn] *)
Estimate(r) ==
    LET nd == Len(r.sh)
        sp == Pos(r.ax, nd, -1)
        tm == Pos(r.tax, nd, 0)
    IN  IF r.tsn \in {NoTs, Scalar} THEN Any
        ELSE IF sp = 0 \/ tm = 0 THEN Any
        ELSE IF r.tsn = Table \/ tm = sp THEN Bad
        ELSE IF r.sh[tm] # r.tsn THEN Bad
        ELSE IF r.what = "linear"
        THEN IF r.sh[sp] # 3 THEN Any ELSE Good(r.sh)
        ELSE IF r.sh[sp] # 4 THEN Bad
        ELSE IF r.what = "quaternion" /\ r.tsn < 6 THEN Any
        ELSE Good([r.sh EXCEPT ![sp] = 3])

(* Fits of two arrays of vectors: r = [what, s1, s2, ax] *)
Drop(sh, p) == SubSeq(sh, 1, p - 1) \o SubSeq(sh, p + 1, Len(sh))
RECURSIVE Total(_)
Total(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Total(Tail(sh))
Fit(r) ==
    LET p1 == Pos(r.ax, Len(r.s1), -1)
        p2 == Pos(r.ax, Len(r.s2), -1)
        pairs == r.what # "icp"
    IN  IF p1 = 0 \/ p2 = 0 THEN Bad
        ELSE IF r.s1[p1] # 3 \/ r.s2[p2] # 3 THEN Bad
        ELSE IF Len(r.s1) < 2 THEN Bad
        ELSE IF pairs /\ Total(Drop(r.s1, p1)) # Total(Drop(r.s2, p2)) THEN Bad
        ELSE IF Total(Drop(r.s1, p1)) = 1 THEN Any
        ELSE IF r.s1 = r.s2 \/ (~pairs /\ Len(r.s2) = 2) THEN Good(<<>>)
        ELSE Any
Arc(r) ==
    LET nd == Len(r.s1)
        p == Pos(r.ax, nd, -1)
    IN  IF Len(r.s2) # nd THEN Any
        ELSE IF p = 0 THEN Bad
        ELSE IF r.s1[p] # 3 \/ r.s2[p] # 3 THEN Bad
        ELSE IF \E k \in 1..nd : r.s1[k] # r.s2[k] /\ r.s1[k] # 1 /\ r.s2[k] # 1 THEN Bad
        ELSE Good([k \in 1..nd |-> IF k = p THEN 4 ELSE IF r.s1[k] = 1 THEN r.s2[k] ELSE r.s1[k]])

(* References to frames: r = [what, ref, arg]: the argument arg of a call   *)
(* that needs a frame is something else *)
Reference(r) == Bad
(* options with a fixed set of values, arrays of a fixed shape *)
Matrix(r) == IF r.sh = <<3, 3>> THEN Good(<<>>) ELSE Bad
Values == [mode |-> {"quaternion", "rotation_vector"},
           what |-> {"reference_frame", "moving_frame", "representation_frame"},
           format |-> {"numpy", "pandas", "xarray"}]
Option(r) == IF r.value \in Values[r.of] THEN Good(<<>>) ELSE Bad
(* the dimension is named, but the array has no names *)
Nameless(r) == Bad

Verdict(r) ==
    CASE r.f = "transform" -> Transform(r)
      [] r.f = "labelled" -> Labelled(r)
      [] r.f = "estimate" -> Estimate(r)
      [] r.f = "fit" -> IF r.what = "arc" THEN Arc(r) ELSE Fit(r)
      [] r.f = "reference" -> Reference(r)
      [] r.f = "matrix" -> Matrix(r)
      [] r.f = "option" -> Option(r)
      [] r.f = "nameless" -> Nameless(r)
=============================================================================
