-------------------------------- MODULE Vel --------------------------------
(* Velocities (C14-C16).  The frames of Frames.tla, with a rotation that    *)
(* has a constant rate: the record of a moving frame additionally holds     *)
(*   g    quaternion at the first timestamp                                 *)
(*   ax   axis of the rotation, m: multiples of u per tick about it         *)
(*   gs   quaternions per sample of a discrete frame, and                   *)
(*   jump whether they differ (then the angular velocity is unspecified)    *)
(* and its translations are as given by the caller, before the inverse      *)
(* option is resolved.                                                      *)
EXTENDS Lookup, Terms

VRoot == Root("") @@ [g |-> QOne, gs |-> <<QOne>>, ax |-> <<0, 0, 1>>, m |-> 0, jump |-> FALSE]
VFrame(op) ==
    [name |-> op.name, parent |-> 0, kids |-> <<>>, kind |-> op.kind, tr |-> op.tr,
     rot |-> <<>>, ts |-> op.ts, h |-> <<>>, inv |-> op.inv,
     g |-> op.g, gs |-> op.gs, ax |-> op.ax, m |-> op.m, jump |-> op.jump]

---------------------------------------------------------------------------
(* poses as terms: [w, t] *)
TPoseId == [w |-> WOne, t |-> TZero]
TPoseMul(p, q) == [w |-> WMul(p.w, q.w), t |-> TAdd(TRot(p.w, q.t), p.t)]
TPoseInv(p) == [w |-> WInv(p.w), t |-> TNeg(TRot(WInv(p.w), p.t))]

(* the pose given by the caller at tick t and sample k *)
Given(f, t, k) == [w |-> IF f.kind = "cont" THEN WMul(FConst(f.g), FAxis(f.ax, f.m * (t - f.ts[1])))
                         ELSE FConst(f.gs[k]),
                   t |-> TV(f.tr[k])]
Knot(f, k) == LET p == Given(f, IF f.ts = <<>> THEN 0 ELSE f.ts[k], k)
              IN  IF f.inv THEN TPoseInv(p) ELSE p
(* the transform of a frame with respect to its parent: C08, C09 *)
TPoseAt(f, t) ==
    LET k == LastAt(f.ts, t)
        p == Given(f, t, 1)
    IN  CASE f.kind = "static" -> Knot(f, 1)
          [] f.kind = "disc" -> Knot(f, Max2(k, 1))
          [] f.kind = "cont" ->
               [w |-> IF f.inv THEN WInv(p.w) ELSE p.w,
                t |-> IF f.ts[k] = t THEN Knot(f, k).t
                      ELSE TLerp(Knot(f, k).t, Knot(f, k + 1).t, t - f.ts[k], f.ts[k + 1] - f.ts[k])]
(* rotation rate of a frame with respect to its parent, in own coordinates *)
BodyRate(f) == IF f.kind # "cont" THEN TZero
               ELSE IF f.inv THEN TRot(FConst(f.g), TRate(f.ax, -f.m))
               ELSE TRate(f.ax, f.m)

TCompose(S, up, down, t) ==
    LET U[k \in 0..Len(up)] ==
            IF k = 0 THEN TPoseId ELSE TPoseMul(TPoseAt(S.objs[up[k]], t), U[k - 1])
        D[k \in 0..Len(down)] ==
            IF k = 0 THEN U[Len(up)]
            ELSE TPoseMul(TPoseInv(TPoseAt(S.objs[down[k]], t)), D[k - 1])
    IN  D[Len(down)]

(* rotation rate of the first frame of a path with respect to the last one, *)
(* in coordinates of the first *)
TRateAlong(S, up, down, t) ==
    LET U[k \in 0..Len(up)] ==
            IF k = 0 THEN [w |-> WOne, r |-> TZero]
            ELSE LET f == S.objs[up[k]]
                 IN  [w |-> WMul(TPoseAt(f, t).w, U[k - 1].w),
                      r |-> TAdd(U[k - 1].r, TRot(WInv(U[k - 1].w), BodyRate(f)))]
        D[k \in 0..Len(down)] ==
            IF k = 0 THEN U[Len(up)]
            ELSE LET f == S.objs[down[k]]
                     w == TPoseAt(f, t).w
                 IN  [w |-> WMul(WInv(w), D[k - 1].w),
                      r |-> TSub(D[k - 1].r, TRot(WMul(WInv(D[k - 1].w), w), BodyRate(f)))]
    IN  D[Len(down)].r

---------------------------------------------------------------------------
(* time series of terms: [res, has, ts, v, ok]; res "any": unspecified *)
AnyV == [res |-> "any"]
Strict(ts) == \A k \in 1..Len(ts) - 1 : ts[k] < ts[k + 1]
Series(ts, v, ok) == [res |-> "ok", has |-> TRUE, ts |-> ts, v |-> v, ok |-> ok]
Fixed(v) == [res |-> "ok", has |-> FALSE, ts |-> <<>>, v |-> <<v>>, ok |-> TRUE]

(* the derivative by finite differences: one-sided at the ends and second   *)
(* order between, also for irregular timestamps *)
Gradient(ts, p) ==
    LET n == Len(ts)
        d(k) == ts[k + 1] - ts[k]
    IN [k \in 1..n |->
         IF k = 1 THEN TScale(Rat(1, d(1)), TSub(p[2], p[1]))
         ELSE IF k = n THEN TScale(Rat(1, d(n - 1)), TSub(p[n], p[n - 1]))
         ELSE LET a == d(k - 1)
                  b == d(k)
              IN  TAdd(TScale(Rat(a, b * (a + b)), TSub(p[k + 1], p[k])),
                       TScale(Rat(b, a * (a + b)), TSub(p[k], p[k - 1])))]

Valid(S, a, b) == a > 0 /\ b > 0 /\ SameTree(S, a, b)

(* positions and words of a frame in another one *)
Positions(S, a, b, arr) ==
    LET tb == TimeBase(S, Path(S, a, b), arr)
        C(t) == TCompose(S, UpPath(S, a, b), DownPath(S, a, b), t)
    IN  IF ~tb.has THEN LET p == C(0) IN Fixed(p.t) @@ [w |-> <<p.w>>]
        ELSE LET ps == [k \in 1..Len(tb.ts) |-> C(tb.ts[k])]
             IN  Series(tb.ts, [k \in 1..Len(tb.ts) |-> ps[k].t], TRUE)
                 @@ [w |-> [k \in 1..Len(tb.ts) |-> ps[k].w]]

(* the value of a series at a tick *)
ValueAt(s, t) ==
    LET k == LastAt(s.ts, t)
    IN  IF ~s.has THEN s.v[1]
        ELSE IF s.ts[k] = t THEN s.v[k]
        ELSE TLerp(s.v[k], s.v[k + 1], t - s.ts[k], s.ts[k + 1] - s.ts[k])

(* vectors in a represented in b (C06, C10) *)
Represent(S, a, b, s) ==
    IF ~s.has THEN
        LET p == Positions(S, a, b, NoTime)
        IN  [p EXCEPT !.v = [k \in 1..Len(p.w) |-> TRot(p.w[k], s.v[1])], !.ok = s.ok]
    ELSE LET p == Positions(S, a, b, [has |-> TRUE, ts |-> s.ts])
         IN  Series(p.ts, [k \in 1..Len(p.ts) |-> TRot(p.w[k], ValueAt(s, p.ts[k]))], s.ok)

(* several series on the timestamps of the first that has any, restricted   *)
(* to the interval all of them cover *)
Match(ss) ==
    LET stamped == SelectSeq(ss, LAMBDA s : s.has)
        lo == SeqMax([k \in 1..Len(stamped) |-> stamped[k].ts[1]])
        hi == SeqMin([k \in 1..Len(stamped) |-> stamped[k].ts[Len(stamped[k].ts)]])
        base == SelectSeq(stamped[1].ts, LAMBDA x : lo <= x /\ x <= hi)
    IN  IF stamped = <<>> THEN ss
        ELSE [i \in 1..Len(ss) |-> Series(base, [k \in 1..Len(base) |-> ValueAt(ss[i], base[k])], ss[i].ok)]
Empty(s) == s.res = "ok" /\ s.has /\ s.ts = <<>>

Jumps(S, path) == \E k \in 1..Len(path) : S.objs[path[k]].jump

(* C14, C15: a static frame has no velocity (zero where that is allowed) *)
LinVel(S, a, ref, rep, static) ==
    IF ~(Valid(S, a, ref) /\ Valid(S, ref, rep)) THEN ErrRes
    ELSE LET p == Positions(S, a, ref, NoTime)
         IN  IF ~p.has THEN IF static THEN Fixed(TZero) ELSE ErrRes
             ELSE IF Len(p.ts) < 2 THEN AnyV
             ELSE Represent(S, ref, rep, Series(p.ts, Gradient(p.ts, p.v), TRUE))
AngVel(S, a, ref, rep, static) ==
    IF ~(Valid(S, a, ref) /\ Valid(S, a, rep)) THEN ErrRes
    ELSE LET p == Positions(S, a, ref, NoTime)
             up == UpPath(S, a, ref)
             down == DownPath(S, a, ref)
         IN  IF ~p.has THEN IF static THEN Fixed(TZero) ELSE ErrRes
             ELSE IF Len(p.ts) < 4 THEN AnyV
             ELSE Represent(S, a, rep,
                    Series(p.ts, [k \in 1..Len(p.ts) |-> TRateAlong(S, up, down, p.ts[k])],
                           ~Jumps(S, up \o down)))
(* both, on common timestamps *)
Twist(S, a, ref, rep, static) ==
    LET l == LinVel(S, a, ref, rep, static)
        w == AngVel(S, a, ref, rep, static)
    IN  IF l.res = "err" \/ w.res = "err" THEN ErrRes
        ELSE IF l.res = "any" \/ w.res = "any" \/ Empty(l) \/ Empty(w) THEN AnyV
        ELSE LET m == Match(<<w, l>>)
             IN  [res |-> "ok", lin |-> m[2], ang |-> m[1]]

---------------------------------------------------------------------------
(* C16: arr = [has, ts, v] are velocities given as exact vectors; what they *)
(* become when the frame a they refer to is replaced by b *)
Result(S, a, b, arr, extra) ==
    \* the array represented in b plus extra series, all in b
    LET own == Represent(S, a, b, [res |-> "ok", has |-> arr.has, ts |-> arr.ts,
                                   v |-> [k \in 1..Len(arr.v) |-> TV(arr.v[k])], ok |-> TRUE])
        all == <<own>> \o extra
    IN  IF \E i \in 1..Len(all) : Empty(all[i]) THEN AnyV
        ELSE LET m == Match(all) IN [res |-> "ok", m |-> m]
SumUp(m, terms) == [m[1] EXCEPT !.v = terms, !.ok = \A i \in 1..Len(m) : m[i].ok]

TransformAng(S, a, b, what, arr) ==
    IF ~Valid(S, a, b) THEN ErrRes
    ELSE IF what = "representation_frame"
    THEN Represent(S, a, b, [res |-> "ok", has |-> arr.has, ts |-> arr.ts,
                             v |-> [k \in 1..Len(arr.v) |-> TV(arr.v[k])], ok |-> TRUE])
    ELSE LET w == IF what = "reference_frame" THEN AngVel(S, a, b, b, TRUE)
                  ELSE IF what = "moving_frame" THEN AngVel(S, b, a, b, TRUE)
                  ELSE ErrRes
         IN  IF w.res # "ok" THEN w
             ELSE LET r == Result(S, a, b, arr, <<w>>)
                  IN  IF r.res # "ok" THEN r
                      ELSE SumUp(r.m, [k \in 1..Len(r.m[1].v) |-> TAdd(r.m[1].v[k], r.m[2].v[k])])

(* other: the moving frame (what = reference_frame) or the reference frame  *)
(* (what = moving_frame) of the velocities *)
TransformLin(S, a, b, what, other, arr) ==
    IF ~Valid(S, a, b) THEN ErrRes
    ELSE IF what = "representation_frame" THEN TransformAng(S, a, b, what, arr)
    ELSE IF other < 1 THEN IF what = "moving_frame" THEN AnyV ELSE ErrRes
    ELSE IF ~Valid(S, a, other) THEN ErrRes
    ELSE IF what \notin {"reference_frame", "moving_frame"} THEN ErrRes
    ELSE LET ref == what = "reference_frame"
             tw == Twist(S, a, b, b, TRUE)
             lin == IF ref THEN (IF tw.res = "ok" THEN tw.lin ELSE tw) ELSE LinVel(S, b, a, b, TRUE)
             ang == IF ref THEN (IF tw.res = "ok" THEN tw.ang ELSE tw) ELSE AngVel(S, a, other, b, TRUE)
             arm0 == IF ref THEN Positions(S, other, a, NoTime) ELSE Positions(S, b, a, NoTime)
             arm == Represent(S, a, b, [res |-> "ok", has |-> arm0.has, ts |-> arm0.ts, v |-> arm0.v, ok |-> TRUE])
         IN  IF lin.res = "err" \/ ang.res = "err" THEN ErrRes
             ELSE IF lin.res = "any" \/ ang.res = "any" \/ Empty(arm0) THEN AnyV
             ELSE LET r == Result(S, a, b, arr, <<lin, ang, arm>>)
                  IN  IF r.res # "ok" THEN r
                      ELSE SumUp(r.m, [k \in 1..Len(r.m[1].v) |->
                             TAdd(r.m[1].v[k], TAdd(r.m[2].v[k], TCross(r.m[3].v[k], r.m[4].v[k])))])
=============================================================================
