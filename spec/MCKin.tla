-------------------------------- MODULE MCKin ------------------------------
(* All frame trees over a catalogue of frames, with the transforms looked   *)
(* up between all pairs of frames, and the theorems about them.             *)
EXTENDS Lookup, Json

CONSTANTS MaxFrames, \* number of frames, the root included
          Cat        \* names of catalogue entries to use

VARIABLES S, picks
vars == <<S, picks>>

X(a) == <<a[1], a[2], a[3], 1>>
St(t, r, inv) == [NoTf EXCEPT !.trsh = IF t = <<>> THEN <<>> ELSE <<3>>,
    !.tr = IF t = <<>> THEN <<>> ELSE <<X(t)>>,
    !.rotsh = IF r = <<>> THEN <<>> ELSE <<4>>,
    !.rot = IF r = <<>> THEN <<>> ELSE <<r>>, !.h = QOne, !.inv = inv]
\* moving: translation t0 + k * dt + k^2 * ddt, rotation g h^k at tick k
Mv(ts, t0, dt, ddt, g, h, inv, disc) ==
    [NoTf EXCEPT !.tssh = <<Len(ts)>>, !.ts = ts,
     !.trsh = IF t0 = <<>> THEN <<>> ELSE <<Len(ts), 3>>,
     !.tr = IF t0 = <<>> THEN <<>>
            ELSE [k \in 1..Len(ts) |-> <<t0[1] + ts[k]*dt[1] + ts[k]*ts[k]*ddt[1],
                                         t0[2] + ts[k]*dt[2] + ts[k]*ts[k]*ddt[2],
                                         t0[3] + ts[k]*dt[3] + ts[k]*ts[k]*ddt[3], 1>>],
     !.rotsh = IF g = <<>> THEN <<>> ELSE <<Len(ts), 4>>,
     !.rot = IF g = <<>> THEN <<>>
             ELSE [k \in 1..Len(ts) |-> QMul(g, QPow(h, ts[k] - ts[1]))],
     !.h = IF g = <<>> THEN QOne ELSE h, !.inv = inv, !.disc = disc]

Z == <<0, 0, 0>>
Catalogue ==
    [sT  |-> St(<<1, -2, 3>>, <<>>, FALSE),
     sR  |-> St(<<>>, <<1, 1, 0, 0>>, FALSE),
     sTR |-> St(<<2, 0, -1>>, <<1, 1, 1, 1>>, FALSE),
     sI  |-> St(<<0, 3, 1>>, <<2, 0, 1, 0>>, TRUE),
     s0  |-> St(<<>>, <<>>, FALSE),
     c1  |-> Mv(<<0, 2, 4>>, <<1, 0, 0>>, <<0, 1, 2>>, <<1, 0, 0>>, QOne, <<3, 1, 1, 1>>, FALSE, FALSE),
     c2  |-> Mv(<<1, 2, 3, 5>>, <<0, 1, 0>>, <<2, 0, -1>>, Z, <<>>, <<>>, FALSE, FALSE),
     cI  |-> Mv(<<0, 1, 3>>, <<0, 0, 2>>, <<1, 1, 0>>, Z, <<1, 0, 0, 1>>, <<3, 1, -1, 1>>, TRUE, FALSE),
     cR  |-> Mv(<<3, 4, 6>>, <<>>, <<>>, <<>>, <<1, 1, 0, 0>>, <<1, 0, 1, 0>>, FALSE, FALSE),
     d1  |-> Mv(<<1, 3>>, <<5, 0, 0>>, <<0, 2, 0>>, Z, QOne, <<1, 0, 1, 0>>, FALSE, TRUE),
     d2  |-> Mv(<<0, 2, 7>>, <<0, -1, 0>>, <<1, 0, 0>>, Z, <<>>, <<>>, FALSE, TRUE),
     dI  |-> Mv(<<2, 4>>, <<1, 1, 1>>, <<0, 0, 1>>, Z, <<1, 1, 0, 0>>, <<1, 1, 1, 1>>, TRUE, TRUE),
     \* with invalid samples
     cG  |-> [gap |-> <<5>>] @@ Mv(<<0, 2, 3, 4, 5, 6, 8>>, <<1, 0, 2>>, <<1, 0, 0>>, <<0, 0, 1>>,
                                   QOne, <<3, 1, 1, 1>>, FALSE, FALSE),
     cH  |-> [gap |-> <<1>>] @@ Mv(<<1, 3, 4, 6, 7>>, <<0, 2, 1>>, <<0, 1, 0>>, Z,
                                   <<1, 0, 0, 1>>, <<3, 1, -1, 1>>, TRUE, FALSE),
     dG  |-> [gap |-> <<2>>] @@ Mv(<<2, 3, 6>>, <<0, 0, 1>>, <<1, 1, 0>>, Z, QOne, <<1, 0, 1, 0>>, FALSE, TRUE)]

Init == S = AddObj(EmptyState, Root("f1"), 0) /\ picks = <<>>
Names == <<"f1", "f2", "f3", "f4", "f5", "f6">>
Next == /\ Len(S.objs) < MaxFrames
        /\ \E p \in 1..Len(S.objs), c \in Cat :
            LET r == Construct(S, Names[Len(S.objs) + 1], [k |-> "obj", i |-> p], Catalogue[c])
            IN  /\ r.res = "ok"
                /\ S' = r.S
                /\ picks' = Append(picks, [parent |-> p, cat |-> c])
Spec == Init /\ [][Next]_vars

Ids == 1..Len(S.objs)
Full == Len(S.objs) = MaxFrames

---------------------------------------------------------------------------
(* theorems, over the matrix M of all lookups *)
PEq(p, q) == (p.ok /\ q.ok) => (p.t = q.t /\ p.r = q.r)
IdentityLookup(M) == \A a \in Ids :
    M[a][a] = [res |-> "ok", feat |-> {}, has |-> FALSE, ts |-> <<>>, poses |-> <<PoseId>>]
\* C04: inverse and composition for static paths
StaticInverse(M) == \A a, b \in Ids : ~M[a][b].has =>
    M[b][a].poses[1] = PoseInv(M[a][b].poses[1])
StaticComposition(M) == \A a, b, c \in Ids :
    (a # b /\ b # c /\ ~M[a][b].has /\ ~M[b][c].has) =>
        M[a][c].poses[1] = PoseMul(M[b][c].poses[1], M[a][b].poses[1])
\* at equal times the transforms of moving frames are inverse
MovingInverse(M) == \A a, b \in Ids : \A k \in 1..Len(M[a][b].ts), l \in 1..Len(M[b][a].ts) :
    M[a][b].ts[k] = M[b][a].ts[l] =>
        PEq(M[b][a].poses[l], PoseInv(M[a][b].poses[k]))
\* and compose
MovingComposition(M) == \A a, b, c \in Ids : (a # b /\ b # c /\ a # c) =>
    \A k \in 1..Len(M[a][b].ts), l \in 1..Len(M[b][c].ts), m \in 1..Len(M[a][c].ts) :
        (M[a][b].ts[k] = M[b][c].ts[l] /\ M[a][b].ts[k] = M[a][c].ts[m]) =>
            PEq(M[a][c].poses[m], PoseMul(M[b][c].poses[l], M[a][b].poses[k]))
\* C07: sampled within the span of every continuous frame, strictly increasing
InSpan(a, b, t) == \A i \in ToSet(Path(S, a, b)) :
    IsCont(S, i) => S.objs[i].ts[1] <= t /\ t <= S.objs[i].ts[Len(S.objs[i].ts)]
BaseInSpan(M) == \A a, b \in Ids : \A k \in 1..Len(M[a][b].ts) :
    /\ InSpan(a, b, M[a][b].ts[k])
    /\ k > 1 => M[a][b].ts[k - 1] < M[a][b].ts[k]
\* a discrete frame neither narrows nor (with a continuous one around) samples
TimelessDisc(M) == \A a, b \in Ids :
    (\E i \in ToSet(Path(S, a, b)) : IsCont(S, i)) =>
        M[a][b].ts = TimeBase([S EXCEPT !.objs = [i \in Ids |->
            IF IsDisc(S, i) THEN [S.objs[i] EXCEPT !.kind = "static"] ELSE S.objs[i]]],
            Path(S, a, b), NoTime).ts
\* C08, C09: what is known in spite of invalid samples is what would be known
\* without them, and at samples all whose transforms are valid it is known
NoGaps == [S EXCEPT !.objs = [i \in Ids |-> [S.objs[i] EXCEPT !.gap = {}]]]
GapsLocal(M) == (\E i \in Ids : S.objs[i].gap # {}) => \A a, b \in Ids :
    LET L == LookupTransform(NoGaps, a, b, NoTime)
        sampled(t, i) == \E k \in 1..Len(S.objs[i].ts) : S.objs[i].ts[k] = t /\ k \notin S.objs[i].gap
    IN  /\ L.ts = M[a][b].ts
        /\ \A k \in 1..Len(L.poses) :
             /\ M[a][b].poses[k].ok => L.poses[k] = M[a][b].poses[k]
             /\ (\A i \in ToSet(Path(S, a, b)) : S.objs[i].gap = {} \/ sampled(L.ts[k], i))
                   => M[a][b].poses[k].ok = L.poses[k].ok
Theorems(M) == /\ IdentityLookup(M) /\ StaticInverse(M) /\ StaticComposition(M)
               /\ MovingInverse(M) /\ MovingComposition(M) /\ BaseInSpan(M)
               /\ TimelessDisc(M) /\ GapsLocal(M)
Inv == WellFormed(S)
Check == Full =>
    LET M == TLCEval([a \in Ids |-> TLCEval([b \in Ids |-> TLCEval(LookupTransform(S, a, b, NoTime))])])
    IN  /\ PrintT("K " \o ToJson([picks |-> picks, look |-> M]))
        /\ Theorems(M)
ASSUME PrintT("C " \o ToJson([c \in Cat |-> Catalogue[c]]))
=============================================================================
