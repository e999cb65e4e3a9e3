-------------------------------- MODULE Plot -------------------------------
(* C25: what is drawn where.  A state is [F, A]: frames (Frames.tla) and    *)
(* the axes drawn to so far, each a box [n, lo, hi] of rationals around     *)
(* the n points drawn.  Calls draw to axes op.ax (0: new axes).             *)
(* Arrays are [sh, rows]: their shape and, if it is valid, their rows; <<>> *)
(* is a row that is not known (NaN).                                        *)
EXTENDS Lookup

Start == [F |-> EmptyState, A |-> <<>>]
NewBox == [n |-> 0, lo |-> <<RZero, RZero, RZero>>, hi |-> <<RZero, RZero, RZero>>]
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
AddPoint(box, p) ==
    IF p = <<>> THEN box
    ELSE [n |-> box.n + 1,
          lo |-> [i \in 1..3 |-> IF box.n = 0 THEN VComp(p, i) ELSE RMin(box.lo[i], VComp(p, i))],
          hi |-> [i \in 1..3 |-> IF box.n = 0 THEN VComp(p, i) ELSE RMax(box.hi[i], VComp(p, i))]]
AddPoints(box, ps) == FoldLeft(AddPoint, box, ps)

Unit == << <<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>> >>

(* the outcome of drawing points ps on axes ax of the state                 *)
Draw(P, ax, ps, out) ==
    LET k == IF ax = 0 THEN Len(P.A) + 1 ELSE ax
        B == IF ax = 0 THEN Append(P.A, NewBox) ELSE P.A
        box == AddPoints(B[k], ps)
    IN  [S |-> [P EXCEPT !.A = [B EXCEPT ![k] = box]],
         out |-> [res |-> "ok", draw |-> out, ax |-> k, box |-> box]]
Reject(P) == [S |-> P, out |-> [res |-> "err"]]

(* a frame: three arrows from its origin, in coordinates of the world frame *)
FramePose(S, i, w) ==
    IF w = 0 THEN [res |-> "ok", pose |-> PoseId]
    ELSE LET L == LookupTransform(S, i, w, NoTime)
         IN  IF L.res = "err" THEN [res |-> "err"]
             ELSE IF L.has THEN [res |-> "err"]
             ELSE [res |-> "ok", pose |-> L.poses[1]]
PlotFrame(P, op) ==
    LET S == P.F
        i == Resolve(S, op.a)
        w == Resolve(S, op.w)
    IN  IF i < 1 \/ w < 0 THEN Reject(P)
        ELSE IF S.objs[i].kind \notin {"root", "static"} THEN Reject(P)
        ELSE LET f == FramePose(S, i, w)
             IN  IF f.res = "err" THEN Reject(P)
                 ELSE LET tip(k) == VAdd(f.pose.t, Rotate(f.pose.r, VScale(op.len, Unit[k])))
                      IN  Draw(P, op.ax, <<f.pose.t, tip(1), tip(2), tip(3)>>,
                               [origin |-> f.pose.t, tips |-> <<tip(1), tip(2), tip(3)>>])

Valid(arr, w) == arr.sh = <<w>> \/ (Len(arr.sh) = 2 /\ arr.sh[2] = w)
PlotPoints(P, op) ==
    IF ~Valid(op.arr, 3) THEN Reject(P)
    ELSE Draw(P, op.ax, op.arr.rows, [points |-> op.arr.rows])

(* vectors: segments from a base point (default the origin)                 *)
Count(arr) == IF Len(arr.sh) = 1 THEN 1 ELSE arr.sh[1]
BaseOk(arr, base) == base.sh = <<>> \/ (Valid(base, 3) /\ Count(base) = Count(arr))
BaseAt(base, k) == IF base.sh = <<>> THEN VZero ELSE base.rows[k]
Segments(arr, base, F(_)) ==
    [k \in 1..Count(arr) |->
        IF arr.rows[k] = <<>> \/ BaseAt(base, k) = <<>> THEN <<>>
        ELSE << BaseAt(base, k), VAdd(BaseAt(base, k), F(arr.rows[k])) >>]
Ends(segs) == FlattenSeq(segs)
PlotVectors(P, op) ==
    IF ~Valid(op.arr, 3) \/ ~BaseOk(op.arr, op.base) THEN Reject(P)
    ELSE LET segs == Segments(op.arr, op.base, LAMBDA v : VScale(op.len, v))
         IN  Draw(P, op.ax, Ends(segs), [segments |-> <<segs>>])

(* quaternions: the rotated axes, half a unit long                          *)
PlotQuats(P, op) ==
    IF ~Valid(op.arr, 4) \/ ~BaseOk(op.arr, op.base) THEN Reject(P)
    ELSE LET segs(c) == Segments(op.arr, op.base, LAMBDA q : VScale(<<1, 2>>, Rotate(q, Unit[c])))
         IN  Draw(P, op.ax, Ends(segs(1)) \o Ends(segs(2)) \o Ends(segs(3)),
                  [segments |-> <<segs(1), segs(2), segs(3)>>])

IsPlot(op) == op.op \in {"plotframe", "plotpoints", "plotvectors", "plotquats"}
StepP(P, op) ==
    IF "ax" \in DOMAIN op /\ op.ax > Len(P.A) THEN [S |-> P, out |-> [res |-> "skip"]]
    ELSE CASE op.op = "plotframe" -> PlotFrame(P, op)
           [] op.op = "plotpoints" -> PlotPoints(P, op)
           [] op.op = "plotvectors" -> PlotVectors(P, op)
           [] op.op = "plotquats" -> PlotQuats(P, op)

---------------------------------------------------------------------------
(* How the view follows: limits are expanded to what is drawn and then      *)
(* made equally long around their middles.                                  *)
DefaultView == [lo |-> <<RZero, RZero, RZero>>, hi |-> <<ROne, ROne, ROne>>]
Span(L, i) == RSub(L.hi[i], L.lo[i])
Expand(L, box) ==
    IF box.n = 0 THEN L
    ELSE [lo |-> [i \in 1..3 |-> RMin(L.lo[i], box.lo[i])], hi |-> [i \in 1..3 |-> RMax(L.hi[i], box.hi[i])]]
Half == <<1, 2>>
EqualScale(L) ==
    LET r == RMul(Half, RMax(RMax(Span(L, 1), Span(L, 2)), Span(L, 3)))
        m(i) == RMul(Half, RAdd(L.lo[i], L.hi[i]))
    IN  [lo |-> [i \in 1..3 |-> RSub(m(i), r)], hi |-> [i \in 1..3 |-> RAdd(m(i), r)]]
Shows(L, box) == box.n = 0 \/ \A i \in 1..3 : RLe(L.lo[i], box.lo[i]) /\ RLe(box.hi[i], L.hi[i])
Cubic(L) == Span(L, 1) = Span(L, 2) /\ Span(L, 2) = Span(L, 3)
=============================================================================
