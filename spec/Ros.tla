-------------------------------- MODULE Ros --------------------------------
(* C22: messages, the export of a frame tree to TF and broadcasters, as     *)
(* functions of a state of Frames.tla.                                      *)
EXTENDS Lookup

---------------------------------------------------------------------------
(* Messages: a message is a list of fields [f |-> path, v |-> value].  The   *)
(* payload of a call is a sequence of components, quaternions given scalar  *)
(* first; messages name every component, quaternions carry x, y, z, w.      *)
XYZ == <<"x", "y", "z">>
WXYZ == <<"w", "x", "y", "z">>
Field(p, v) == [f |-> p, v |-> v]
Comp(p, names, vals) == [k \in 1..Len(names) |-> Field(p \o <<names[k]>>, vals[k])]
Stamped(frame, stamp) == <<Field(<<"header", "frame_id">>, frame), Field(<<"header", "stamp">>, stamp)>>

Pack(kind, a) == \* a = [u, v, frame, child, stamp]
    CASE kind = "transform" ->
           Stamped(a.frame, a.stamp) \o <<Field(<<"child_frame_id">>, a.child)>>
           \o Comp(<<"transform", "translation">>, XYZ, a.u)
           \o Comp(<<"transform", "rotation">>, WXYZ, a.v)
      [] kind = "pose" ->
           Stamped(a.frame, a.stamp) \o Comp(<<"pose", "position">>, XYZ, a.u)
           \o Comp(<<"pose", "orientation">>, WXYZ, a.v)
      [] kind = "twist" ->
           Stamped(a.frame, a.stamp) \o Comp(<<"twist", "linear">>, XYZ, a.u)
           \o Comp(<<"twist", "angular">>, XYZ, a.v)
      [] kind = "vector" -> Stamped(a.frame, a.stamp) \o Comp(<<"vector">>, XYZ, a.u)
      [] kind = "point" -> Stamped(a.frame, a.stamp) \o Comp(<<"point">>, XYZ, a.u)
      [] kind = "quaternion" -> Stamped(a.frame, a.stamp) \o Comp(<<"quaternion">>, WXYZ, a.v)

Kinds == {"transform", "pose", "twist", "vector", "point", "quaternion"}
Parts(kind) == \* what unpacking yields: paths and component names
    CASE kind = "transform" -> << <<<<"transform", "translation">>, XYZ>>, <<<<"transform", "rotation">>, WXYZ>> >>
      [] kind = "pose" -> << <<<<"pose", "position">>, XYZ>>, <<<<"pose", "orientation">>, WXYZ>> >>
      [] kind = "twist" -> << <<<<"twist", "linear">>, XYZ>>, <<<<"twist", "angular">>, XYZ>> >>
      [] kind = "vector" -> << <<<<"vector">>, XYZ>> >>
      [] kind = "point" -> << <<<<"point">>, XYZ>> >>
      [] kind = "quaternion" -> << <<<<"quaternion">>, WXYZ>> >>
Get(m, p) == m[CHOOSE k \in 1..Len(m) : m[k].f = p].v
Unpack(kind, m) ==
    [i \in 1..Len(Parts(kind)) |->
        LET p == Parts(kind)[i] IN [k \in 1..Len(p[2]) |-> Get(m, p[1] \o <<p[2][k]>>)]]
PayloadOf(kind, a) == CASE kind \in {"transform", "pose", "twist"} -> <<a.u, a.v>>
                        [] kind \in {"vector", "point"} -> <<a.u>>
                        [] kind = "quaternion" -> <<a.v>>
MsgOp(op) == [res |-> "ok", fields |-> Pack(op.kind, op.arg), unpacked |-> PayloadOf(op.kind, op.arg)]

(* a visualization marker: type, frame, position, orientation (x, y, z, w), *)
(* scale per axis and color (red, green, blue, alpha, each of 255)          *)
LineStrip == 4
MarkerOp(op) ==
    [res |-> "ok",
     fields |-> << Field(<<"header", "frame_id">>, IF op.frame = "" THEN "world" ELSE op.frame),
                   Field(<<"type">>, IF op.type = -1 THEN LineStrip ELSE op.type) >>
                \o Comp(<<"pose", "position">>, XYZ, op.pos)
                \o Comp(<<"pose", "orientation">>, <<"x", "y", "z", "w">>, op.ori)
                \o Comp(<<"scale">>, XYZ, IF Len(op.scale) = 1 THEN [k \in 1..3 |-> op.scale[1]] ELSE op.scale)
                \o Comp(<<"color">>, <<"r", "g", "b", "a">>, op.color)]

---------------------------------------------------------------------------
(* Export of the whole tree a frame belongs to *)
TreeOf(S, i) == {j \in 1..Len(S.objs) : RootOf(S, j) = RootOf(S, i)}
Exported(S, j) ==
    LET f == S.objs[j]
    IN  [parent |-> S.objs[f.parent].name, child |-> f.name, static |-> f.ts = <<>>,
         ts |-> f.ts,
         poses |-> [k \in 1..Len(f.tr) |-> [t |-> f.tr[k], r |-> f.rot[k], ok |-> TRUE]]]
Span(S, i) ==
    LET mv == {j \in TreeOf(S, i) : S.objs[j].ts # <<>>}
        tss == UNION {ToSet(S.objs[j].ts) : j \in mv}
    IN  IF mv = {} THEN <<>>
        ELSE <<CHOOSE x \in tss : \A y \in tss : x <= y, CHOOSE x \in tss : \A y \in tss : y <= x>>

(* TF at time t (or the latest common time): every moving frame on the path *)
(* must cover t; values between samples of irregular or discrete frames     *)
(* are not specified *)
Covers(f, t) == f.ts = <<>> \/ (f.ts[1] <= t /\ t <= f.ts[Len(f.ts)])
TfPose(f, t) ==
    LET p == PoseAt(f, t)
        same == Cardinality({k \in 1..Len(f.ts) : f.ts[k] = t})
    IN  IF same > 1 \/ (f.kind = "disc" /\ same = 0) THEN [p EXCEPT !.ok = FALSE] ELSE p
TfAt(S, a, b, t) ==
    LET up == UpPath(S, a, b)
        down == DownPath(S, a, b)
        U[k \in 0..Len(up)] ==
            IF k = 0 THEN PoseId ELSE PoseMul(TfPose(S.objs[up[k]], t), U[k - 1])
        D[k \in 0..Len(down)] ==
            IF k = 0 THEN U[Len(up)] ELSE PoseMul(PoseInv(TfPose(S.objs[down[k]], t)), D[k - 1])
    IN  D[Len(down)]
TfQuery(S, i, q) == \* q = [source, target, time, latest, p, o]
    LET a == q.source b == q.target
    IN  IF ~SameTree(S, a, i) \/ ~SameTree(S, b, i) THEN [res |-> "err"]
        ELSE LET path == Path(S, a, b)
                 mv == SelectSeq(path, LAMBDA z : S.objs[z].ts # <<>>)
                 last == [k \in 1..Len(mv) |-> SeqMax(S.objs[mv[k]].ts)]
                 t == IF q.latest THEN (IF mv = <<>> THEN 0 ELSE SeqMin(last)) ELSE q.time
             IN  IF \E k \in 1..Len(path) : ~Covers(S.objs[path[k]], t) THEN [res |-> "err"]
                 ELSE LET p == TfAt(S, a, b, t)
                      IN  IF ~p.ok THEN [res |-> "any"]
                          ELSE [res |-> "ok", t |-> p.t, r |-> p.r,
                                v |-> Rotate(p.r, q.p), p |-> VAdd(Rotate(p.r, q.p), p.t),
                                o |-> QMul(p.r, q.o)]

ExportOp(S, op) ==
    LET i == Resolve(S, op.a)
        tree == TreeOf(S, i)
        nonroot == {j \in tree : S.objs[j].parent # 0}
    IN  [res |-> "ok", root |-> S.objs[RootOf(S, i)].name,
         exported |-> {Exported(S, j) : j \in nonroot}, span |-> Span(S, i),
         answers |-> [k \in 1..Len(op.queries) |-> TfQuery(S, i, op.queries[k])]]

---------------------------------------------------------------------------
(* A broadcaster for frame a with respect to base b; events:                *)
(*   [ev |-> "pub"]            publish the current sample                   *)
(*   [ev |-> "set", i]         make sample i the current one                *)
(*   [ev |-> "spin"]           publish continuously (static transforms only)*)
(*   [ev |-> "idx", i]         publish sample i (from 0)                    *)
(*   [ev |-> "tf", child, at]  a transform for child is broadcast at a time *)
(* Every event publishes a set of alternatives (a tie in time is open).     *)
BroadcastOp(S, op) ==
    LET a == Resolve(S, op.a)
        b == IF op.b.k = "none" THEN S.objs[a].parent ELSE Resolve(S, op.b)
        L == LookupTransform(S, a, b, NoTime)
        on == IF op.sub = "" THEN S.objs[b].name ELSE op.sub
        Dist(i, t) == Abs(L.ts[i + 1] - t)
        Nearest(t) == {i \in 0..(Len(L.ts) - 1) : \A j \in 0..(Len(L.ts) - 1) : Dist(i, t) <= Dist(j, t)}
        Cur[k \in 0..Len(op.evs)] == IF k = 0 THEN 0
                                     ELSE IF op.evs[k].ev = "set" THEN op.evs[k].i ELSE Cur[k - 1]
        Reply(k) == LET e == op.evs[k]
                    IN  IF e.ev = "set" THEN {}
                        ELSE IF e.ev = "tf" /\ (e.child # on \/ ~op.subscribe) THEN {}
                        ELSE IF ~L.has THEN {0}
                        ELSE IF e.ev = "pub" THEN {Cur[k]}
                        ELSE IF e.ev = "idx" THEN {e.i}
                        ELSE IF e.ev = "spin" THEN {}   \* its schedule is C23's subject
                        ELSE Nearest(e.at)
    IN  IF L.res = "err" THEN [res |-> "err"]
        ELSE IF L.has /\ L.ts = <<>> THEN [res |-> "any"]
        ELSE [res |-> "ok", base |-> S.objs[b].name, bi |-> b, frame |-> S.objs[a].name, has |-> L.has,
              ts |-> L.ts, poses |-> L.poses,
              replies |-> [k \in 1..Len(op.evs) |-> Reply(k)]]

(* the path marker of frame a with respect to base b: an ordered subset of  *)
(* the positions, all of them if they fit, at least half as many as fit     *)
PathOp(S, op) ==
    LET a == Resolve(S, op.a)
        b == IF op.b.k = "none" THEN S.objs[a].parent ELSE Resolve(S, op.b)
        L == LookupTransform(S, a, b, NoTime)
    IN  IF L.res = "err" THEN [res |-> "err"]
        ELSE IF \E k \in 1..Len(L.poses) : ~L.poses[k].ok THEN [res |-> "any"]
        ELSE LET n == Len(L.poses)
             IN  [res |-> "ok", base |-> S.objs[b].name, frame |-> S.objs[a].name,
                  pos |-> [k \in 1..n |-> L.poses[k].t],
                  least |-> IF n <= op.max THEN n ELSE (op.max + 1) \div 2,
                  most |-> Min2(n, op.max)]
=============================================================================
