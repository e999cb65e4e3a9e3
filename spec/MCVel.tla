------------------------------- MODULE MCVel -------------------------------
(* Theorems about the velocity rules of Vel.tla, evaluated exactly on all    *)
(* trees over a catalogue of frames (u = a quarter turn, coordinate axes):   *)
(* the transformation rules map the velocity of a frame with respect to one  *)
(* frame to the velocity with respect to another one.                        *)
EXTENDS Vel, Json

CONSTANTS MaxFrames, Cat
VARIABLES S, picks
vars == <<S, picks>>

TsA == <<0, 1, 2, 3, 4>>
TsB == <<1, 2, 3, 5, 6>>
Line(ts, a, d) == [k \in 1..Len(ts) |-> <<a[1] + d[1]*ts[k], a[2] + d[2]*ts[k], a[3] + d[3]*ts[k], 1>>]
F(kind, ts, tr, g, ax, m, inv) ==
    [op |-> "frame", name |-> "", kind |-> kind, ts |-> ts, tr |-> tr, g |-> g,
     gs |-> [k \in 1..Len(tr) |-> g], ax |-> ax, m |-> m, jump |-> FALSE, inv |-> inv]
Catalogue ==
    [s  |-> F("static", <<>>, << <<1, -2, 3, 1>> >>, <<1, 1, 0, 0>>, <<0,0,1>>, 0, FALSE),
     sI |-> F("static", <<>>, << <<0, 2, 1, 1>> >>, <<1, 1, 1, 1>>, <<0,0,1>>, 0, TRUE),
     r  |-> F("cont", TsA, Line(TsA, <<0,0,0>>, <<0,0,0>>), <<1, 0, 1, 0>>, <<0,0,1>>, 1, FALSE),
     rI |-> F("cont", TsA, Line(TsA, <<0,0,0>>, <<0,0,0>>), <<1, 1, 0, 0>>, <<0,1,0>>, 2, TRUE),
     t  |-> F("cont", TsB, Line(TsB, <<1,0,2>>, <<1,-1,0>>), <<1, 0, 0, 1>>, <<1,0,0>>, 0, FALSE),
     tr |-> F("cont", TsA, Line(TsA, <<1,0,2>>, <<0,2,-1>>), QOne, <<1,0,0>>, 1, FALSE),
     d  |-> F("disc", <<0, 2>>, << <<1, 0, 0, 1>>, <<2, 1, 0, 1>> >>, <<1, 0, 0, 1>>, <<0,0,1>>, 0, FALSE)]

Init == S = AddObj(EmptyState, VRoot, 0) /\ picks = <<>>
Next == /\ Len(S.objs) < MaxFrames
        /\ \E p \in 1..Len(S.objs), c \in Cat :
            /\ S' = AddObj(S, VFrame(Catalogue[c]), p)
            /\ picks' = Append(picks, [parent |-> p, cat |-> c])
Spec == Init /\ [][Next]_vars
Ids == 1..Len(S.objs)
Full == Len(S.objs) = MaxFrames

Eq(x, y) == EvalQ(x) = EvalQ(y)
(* values of two series agree at common ticks *)
Agree(s, r, Neg) == (s.res = "ok" /\ r.res = "ok" /\ s.ok /\ r.ok /\ s.has /\ r.has) =>
    \A k \in 1..Len(s.ts), l \in 1..Len(r.ts) :
        s.ts[k] = r.ts[l] => EvalQ(s.v[k]) = IF Neg THEN VNeg(EvalQ(r.v[l])) ELSE EvalQ(r.v[l])

Arr(s) == [has |-> TRUE, ts |-> s.ts, v |-> [k \in 1..Len(s.v) |-> EvalQ(s.v[k])]]

(* omega(A wrt B) = - omega(B wrt A) *)
Opposite == \A a, b \in Ids : Agree(AngVel(S, a, b, a, FALSE), AngVel(S, b, a, a, FALSE), TRUE)
(* transforming the reference frame of omega(M wrt A) in A to B gives        *)
(* omega(M wrt B) in B; likewise for the moving frame *)
RefChange == \A m, a, b \in Ids :
    LET w == AngVel(S, m, a, a, FALSE)
    IN  (w.res = "ok" /\ w.ok) =>
        Agree(TransformAng(S, a, b, "reference_frame", Arr(w)), AngVel(S, m, b, b, FALSE), FALSE)
MovChange == \A m, a, b \in Ids :
    LET w == AngVel(S, m, a, m, FALSE)
    IN  (w.res = "ok" /\ w.ok) =>
        Agree(TransformAng(S, m, b, "moving_frame", Arr(w)), AngVel(S, b, a, b, FALSE), FALSE)
(* representation: looking up in another frame = rotating *)
RepChange == \A m, a, b \in Ids :
    LET w == AngVel(S, m, a, a, FALSE)
        v == LinVel(S, m, a, a, FALSE)
    IN  /\ (w.res = "ok" /\ w.ok) =>
            Agree(TransformAng(S, a, b, "representation_frame", Arr(w)), AngVel(S, m, a, b, FALSE), FALSE)
        /\ v.res = "ok" =>
            Agree(TransformAng(S, a, b, "representation_frame", Arr(v)), LinVel(S, m, a, b, FALSE), FALSE)

(* For linear velocities the same with exact derivatives instead of finite   *)
(* differences: [w, t, v, r] = rotation, position, velocity in the target    *)
(* and rate in the target                                                    *)
Slope(f) == IF f.kind # "cont" THEN TZero
            ELSE TScale(Rat(1, f.ts[2] - f.ts[1]), TSub(TV(f.tr[2]), TV(f.tr[1])))
Own(f, t) == \* the twist of a frame in its parent
    LET p == TPoseAt(f, t)
        spin == TRot(p.w, BodyRate(f))
    IN  [w |-> p.w, t |-> p.t, r |-> spin,
         v |-> IF f.inv THEN TCross(spin, p.t) ELSE Slope(f)]
TwistMul(p, q) == \* apply q first
    [w |-> WMul(p.w, q.w), t |-> TAdd(TRot(p.w, q.t), p.t),
     r |-> TAdd(TRot(p.w, q.r), p.r),
     v |-> TAdd(TRot(p.w, q.v), TAdd(p.v, TCross(p.r, TRot(p.w, q.t))))]
TwistInv(p) ==
    LET i == WInv(p.w)
    IN  [w |-> i, t |-> TNeg(TRot(i, p.t)), r |-> TNeg(TRot(i, p.r)),
         v |-> TNeg(TRot(i, TSub(p.v, TCross(p.r, p.t))))]
ExactTwist(a, b, t) ==
    LET up == UpPath(S, a, b)
        down == DownPath(S, a, b)
        U[k \in 0..Len(up)] == IF k = 0 THEN [w |-> WOne, t |-> TZero, r |-> TZero, v |-> TZero]
                               ELSE TwistMul(Own(S.objs[up[k]], t), U[k - 1])
        D[k \in 0..Len(down)] == IF k = 0 THEN U[Len(up)]
                                 ELSE TwistMul(TwistInv(Own(S.objs[down[k]], t)), D[k - 1])
    IN  D[Len(down)]
Moves(a) == \A i \in ToSet(Chain(S, a)) : S.objs[i].kind # "disc"
Exact == \A m, a, b \in Ids : (Moves(m) /\ Moves(a) /\ Moves(b)) => \A t \in {2, 3} :
    LET E == TLCEval(ExactTwist(m, a, t))
        C == TLCEval(ExactTwist(a, b, t))   \* the old frame in the new one
        N == TLCEval(ExactTwist(m, b, t))
        G == TLCEval(ExactTwist(b, a, t))
    IN  \* the rule of TransformLin for the reference frame ...
        /\ Eq(N.v, TAdd(TRot(C.w, E.v), TAdd(C.v, TCross(C.r, TRot(C.w, E.t)))))
        \* ... for the moving frame a -> b of a velocity wrt m, all in b ...
        /\ LET W == TLCEval(ExactTwist(a, m, t))   \* old moving frame in the reference
               X == TLCEval(ExactTwist(b, m, t))
               toB == WMul(C.w, WInv(W.w))   \* reference m -> b
           IN  Eq(TRot(toB, X.v), TAdd(TRot(toB, W.v),
                     TAdd(TRot(C.w, G.v), TCross(TRot(toB, W.r), TRot(C.w, G.t)))))
        \* ... and the recursion of TRateAlong
        /\ Eq(TRateAlong(S, UpPath(S, m, a), DownPath(S, m, a), t), TRot(WInv(E.w), E.r))
        /\ Eq(TCompose(S, UpPath(S, m, a), DownPath(S, m, a), t).t, E.t)

Theorems == Full => (Opposite /\ RefChange /\ MovChange /\ RepChange /\ Exact)
Lins == [a \in Ids |-> [b \in Ids |->
            LET v == LinVel(S, a, b, b, FALSE) IN IF v.res # "ok" THEN v ELSE [res |-> "ok", has |-> v.has, ts |-> v.ts, v |-> v.v, ok |-> v.ok]]]
Angs == [a \in Ids |-> [b \in Ids |->
            LET v == AngVel(S, a, b, b, FALSE) IN IF v.res # "ok" THEN v ELSE [res |-> "ok", has |-> v.has, ts |-> v.ts, v |-> v.v, ok |-> v.ok]]]
Emit == Full => PrintT("K " \o ToJson([picks |-> picks, lin |-> Lins, ang |-> Angs]))
ASSUME PrintT("C " \o ToJson([c \in Cat |-> Catalogue[c]]))
=============================================================================
