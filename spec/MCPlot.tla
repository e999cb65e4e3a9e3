------------------------------- MODULE MCPlot ------------------------------
(* All sequences of plots on one pair of axes over a catalogue of frames    *)
(* and arrays.  View follows the algorithm of Plot.tla; Design selects it   *)
(* or designs that are not correct:                                         *)
(*   "ok"    expand to everything that is drawn, then equal scale           *)
(*   "zy"    the limits of z are set on y                                   *)
(*   "first" only the first plot determines the limits                      *)
(*   "base"  vectors contribute their base points only                      *)
EXTENDS Plot, Json

CONSTANTS MaxPlots, Design
VARIABLES P, view, hist
vars == <<P, view, hist>>

St(t, r, inv) == [NoTf EXCEPT !.trsh = IF t = <<>> THEN <<>> ELSE <<3>>, !.tr = IF t = <<>> THEN <<>> ELSE <<t>>,
    !.rotsh = IF r = <<>> THEN <<>> ELSE <<4>>, !.rot = IF r = <<>> THEN <<>> ELSE <<r>>, !.h = QOne, !.inv = inv]
Build == << [op |-> "new", name |-> "f1", parent |-> [k |-> "none"], tf |-> NoTf],
            [op |-> "new", name |-> "f2", parent |-> [k |-> "obj", i |-> 1], tf |-> St(<<1, -4, 6, 1>>, <<1, 1, 1, 1>>, FALSE)],
            [op |-> "new", name |-> "f3", parent |-> [k |-> "obj", i |-> 2], tf |-> St(<<-9, 0, 1, 2>>, <<2, 0, 1, 0>>, TRUE)],
            [op |-> "new", name |-> "f4", parent |-> [k |-> "obj", i |-> 1], tf |-> St(<<>>, <<1, 2, 2, 0>>, FALSE)],
            [op |-> "new", name |-> "g1", parent |-> [k |-> "none"], tf |-> NoTf] >>
Frames == FoldLeft(LAMBDA S, b : Construct(S, b.name, b.parent, b.tf).S, EmptyState, Build)

O(i) == IF i = 0 THEN [k |-> "none"] ELSE [k |-> "obj", i |-> i]
A1(v) == [sh |-> <<3>>, rows |-> <<v>>]
AN(vs) == [sh |-> <<Len(vs), 3>>, rows |-> vs]
Q1(q) == [sh |-> <<4>>, rows |-> <<q>>]
QN(qs) == [sh |-> <<Len(qs), 4>>, rows |-> qs]
No == [sh |-> <<>>, rows |-> <<>>]
Two == << <<1, 2, 7, 1>>, <<-3, 5, 1, 2>> >>
Three == << <<20, 0, 0, 1>>, <<0, -1, 0, 1>>, <<>>, <<0, 0, 3, 1>> >>
Plots ==
    {[op |-> "plotframe", a |-> O(i), w |-> O(w), len |-> l] :
        i \in {1, 2, 3, 5}, w \in {0, 1, 4}, l \in {<<1, 1>>, <<5, 2>>}}
    \cup {[op |-> "plotpoints", arr |-> a] : a \in {A1(<<4, -7, 2, 1>>), AN(Two), AN(Three), AN(<<>>),
                                                    [sh |-> <<4>>, rows |-> <<>>], [sh |-> <<1, 1, 3>>, rows |-> <<>>]}}
    \cup {[op |-> "plotvectors", arr |-> AN(Two), base |-> b, len |-> l] :
             b \in {No, AN(<< <<-5, 0, 1, 1>>, <<2, 2, 2, 1>> >>), AN(Three)}, l \in {ROne, <<3, 1>>}}
    \cup {[op |-> "plotvectors", arr |-> A1(<<0, -12, 1, 1>>), base |-> b, len |-> ROne] :
             b \in {No, A1(<<1, 1, 1, 1>>)}}
    \cup {[op |-> "plotquats", arr |-> Q1(<<1, 0, 0, 1>>), base |-> b] : b \in {No, A1(<<8, 9, -10, 1>>), AN(Two)}}
    \cup {[op |-> "plotquats", arr |-> QN(<< <<1, 1, 1, 1>>, <<1, 0, 0, 0>> >>), base |-> b] : b \in {No, AN(Two)}}

Init == P = [Start EXCEPT !.F = Frames] /\ view = DefaultView /\ hist = <<>>
BoxOf(out) == AddPoints(NewBox,
    IF "points" \in DOMAIN out.draw THEN out.draw.points
    ELSE IF "tips" \in DOMAIN out.draw THEN <<out.draw.origin>> \o out.draw.tips
    ELSE IF Design = "base" THEN FlattenSeq([k \in 1..Len(out.draw.segments) |->
            [j \in 1..Len(out.draw.segments[k]) |->
               IF out.draw.segments[k][j] = <<>> THEN <<>> ELSE out.draw.segments[k][j][1]]])
    ELSE FlattenSeq([k \in 1..Len(out.draw.segments) |-> FlattenSeq(out.draw.segments[k])]))
Follow(L, box) ==
    LET E == Expand(L, box)
    IN  EqualScale(CASE Design \in {"ok", "base"} -> E
          [] Design = "zy" -> [lo |-> <<E.lo[1], E.lo[3], L.lo[3]>>, hi |-> <<E.hi[1], E.hi[3], L.hi[3]>>]
          [] Design = "first" -> IF Len(P.A) = 0 THEN E ELSE L)
Next ==
    /\ Len(hist) < MaxPlots
    /\ \E p \in Plots :
        LET op == [ax |-> Min2(1, Len(P.A))] @@ p
            r == StepP(P, op)
        IN  /\ P' = r.S
            /\ hist' = Append(hist, [op |-> op, out |-> r.out])
            /\ view' = IF r.out.res = "err" THEN view ELSE Follow(view, BoxOf(r.out))
Spec == Init /\ [][Next]_vars

ViewShows == Len(P.A) = 1 => Shows(view, P.A[1])
ViewCubic == Cubic(view)
(* the axes drawn are as long as requested and at right angles              *)
Dot(a, b) == RAdd(RAdd(RMul(VComp(a, 1), VComp(b, 1)), RMul(VComp(a, 2), VComp(b, 2))), RMul(VComp(a, 3), VComp(b, 3)))
AxesRigid ==
    hist # <<>> => LET e == hist[Len(hist)]
                   IN  (e.op.op = "plotframe" /\ e.out.res = "ok") =>
                       LET d(k) == VSub(e.out.draw.tips[k], e.out.draw.origin)
                       IN  \A i, j \in 1..3 : Dot(d(i), d(j)) = IF i = j THEN RMul(e.op.len, e.op.len) ELSE RZero
Emit == Len(hist) = MaxPlots => PrintT("K " \o ToJson([ops |-> [k \in 1..Len(hist) |-> hist[k].op],
                                                       outs |-> [k \in 1..Len(hist) |-> hist[k].out]]))
EmitBuild == hist = <<>> => PrintT("B " \o ToJson(Build))
=============================================================================
