------------------------------- MODULE Terms -------------------------------
(* Symbolic rotations and vectors for motions with constant rotation rate.  *)
(* A rotation is a word of factors, applied right to left:                  *)
(*   [k |-> "c", q |-> quaternion]          a constant rotation             *)
(*   [k |-> "a", x |-> axis, n |-> integer] rotation by n*u about the axis  *)
(* where u is one fixed small angle.  A vector is a term                    *)
(*   [e |-> "v", v]      an exact vector                                    *)
(*   [e |-> "rot", w, x] the word w applied to x                            *)
(*   [e |-> "sum", xs]   [e |-> "scale", r, x]   [e |-> "cross", a, b]      *)
(*   [e |-> "rate", x, n]  n*u times the unit vector along the axis x       *)
(* The implementation side only evaluates terms numerically; TLC evaluates  *)
(* them exactly for u = a quarter turn (EvalQ) to check theorems.           *)
EXTENDS Quat, SequencesExt

FConst(q) == IF QPrim(q) = QOne THEN <<>> ELSE <<[k |-> "c", q |-> QPrim(q)]>>
FAxis(x, n) == IF n = 0 THEN <<>> ELSE <<[k |-> "a", x |-> x, n |-> n]>>
WOne == <<>>

WMul(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE LET l == a[Len(a)]
             f == b[1]
             a0 == SubSeq(a, 1, Len(a) - 1)
             b0 == Tail(b)
         IN  IF l.k = "c" /\ f.k = "c"
             THEN a0 \o FConst(QMul(l.q, f.q)) \o b0
             ELSE IF l.k = "a" /\ f.k = "a" /\ l.x = f.x
             THEN a0 \o FAxis(l.x, l.n + f.n) \o b0
             ELSE a \o b
FInv(f) == IF f.k = "c" THEN [f EXCEPT !.q = QInv(@)] ELSE [f EXCEPT !.n = -@]
WInv(w) == [i \in 1..Len(w) |-> FInv(w[Len(w) + 1 - i])]

TV(v) == [e |-> "v", v |-> v]
TZero == TV(VZero)
IsV(x) == x.e = "v"
TRate(ax, n) == IF n = 0 THEN TZero ELSE [e |-> "rate", x |-> ax, n |-> n]
TRot(w, x) ==
    IF w = <<>> \/ x = TZero THEN x
    ELSE IF IsV(x) /\ Len(w) = 1 /\ w[1].k = "c" THEN TV(Rotate(w[1].q, x.v))
    ELSE IF x.e = "rot" THEN [e |-> "rot", w |-> WMul(w, x.w), x |-> x.x]
    ELSE [e |-> "rot", w |-> w, x |-> x]
TAdd(a, b) ==
    IF a = TZero THEN b ELSE IF b = TZero THEN a
    ELSE IF IsV(a) /\ IsV(b) THEN TV(VAdd(a.v, b.v))
    ELSE [e |-> "sum", xs |-> (IF a.e = "sum" THEN a.xs ELSE <<a>>)
                              \o (IF b.e = "sum" THEN b.xs ELSE <<b>>)]
TScale(r, x) ==
    IF r = ROne \/ x = TZero THEN x
    ELSE IF r[1] = 0 THEN TZero
    ELSE IF IsV(x) THEN TV(VScale(r, x.v))
    ELSE IF x.e = "scale" THEN [e |-> "scale", r |-> RMul(r, x.r), x |-> x.x]
    ELSE [e |-> "scale", r |-> r, x |-> x]
TNeg(x) == TScale(<<-1, 1>>, x)
TSub(a, b) == IF a = b THEN TZero ELSE TAdd(a, TNeg(b))
TCross(a, b) == IF a = TZero \/ b = TZero THEN TZero
                ELSE [e |-> "cross", a |-> a, b |-> b]
(* a + (b - a) * n / d *)
TLerp(a, b, n, d) == IF n = 0 \/ a = b THEN a ELSE IF n = d THEN b
    ELSE TAdd(TScale(Rat(d - n, d), a), TScale(Rat(n, d), b))

---------------------------------------------------------------------------
(* exact evaluation with u = a quarter turn about a coordinate axis, and    *)
(* one rate unit = 1 *)
QuarterQ(x, n) == LET m == n % 4
                      s == IF m = 0 THEN QOne
                           ELSE IF m = 1 THEN <<1, x[1], x[2], x[3]>>
                           ELSE IF m = 2 THEN <<0, x[1], x[2], x[3]>>
                           ELSE <<1, -x[1], -x[2], -x[3]>>
                  IN  QPrim(s)
RECURSIVE EvalW(_)
EvalW(w) == IF w = <<>> THEN QOne
            ELSE QMul(IF w[1].k = "c" THEN w[1].q ELSE QuarterQ(w[1].x, w[1].n),
                      EvalW(Tail(w)))
RECURSIVE EvalQ(_)
EvalQ(x) ==
    CASE x.e = "v" -> x.v
      [] x.e = "rot" -> Rotate(EvalW(x.w), EvalQ(x.x))
      [] x.e = "sum" -> LET s[i \in 0..Len(x.xs)] ==
                                IF i = 0 THEN VZero ELSE VAdd(s[i - 1], EvalQ(x.xs[i]))
                        IN  s[Len(x.xs)]
      [] x.e = "scale" -> VScale(x.r, EvalQ(x.x))
      [] x.e = "cross" -> VCross(EvalQ(x.a), EvalQ(x.b))
      [] x.e = "rate" -> <<x.n * x.x[1], x.n * x.x[2], x.n * x.x[3], 1>>
=============================================================================
