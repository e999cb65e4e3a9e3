------------------------------- MODULE Lookup ------------------------------
(* What lookups and transformations return in a state of Frames.tla.        *)
(*                                                                          *)
(* A time base is a record [has, ts]: has = FALSE for a result without      *)
(* timestamps.  Results of lookups are [res, has, ts, poses]; a pose with   *)
(* ok = FALSE has an unspecified rotation (and hence unspecified values).   *)
EXTENDS Frames

NoTime == [has |-> FALSE, ts |-> <<>>]
Time(ts) == [has |-> TRUE, ts |-> ts]

IsCont(S, i) == S.objs[i].kind = "cont"
IsDisc(S, i) == S.objs[i].kind = "disc"

(* the frames between two frames, in the order they are passed *)
Path(S, a, b) == UpPath(S, a, b) \o DownPath(S, a, b)

Monotonic(ts) == \A k \in 1..Len(ts) - 1 : ts[k] <= ts[k + 1]
SortedUnique(set) == SetToSortSeq(set, LAMBDA x, y : x < y)
SeqMax(s) == CHOOSE x \in ToSet(s) : \A y \in ToSet(s) : y <= x
SeqMin(s) == CHOOSE x \in ToSet(s) : \A y \in ToSet(s) : x <= y

(* C07: the time base defined by the frames on a path and an array *)
TimeBase(S, path, arr) ==
    LET cont == SelectSeq(path, LAMBDA i : IsCont(S, i))
        disc == SelectSeq(path, LAMBDA i : IsDisc(S, i))
        spans == [k \in 1..Len(cont) |-> S.objs[cont[k]].ts]
                 \o (IF arr.has THEN <<arr.ts>> ELSE <<>>)
        base == IF arr.has THEN arr.ts ELSE S.objs[cont[1]].ts
        lo == SeqMax([k \in 1..Len(spans) |-> spans[k][1]])
        hi == SeqMin([k \in 1..Len(spans) |-> spans[k][Len(spans[k])]])
    IN  IF Len(spans) > 0
        THEN Time(SelectSeq(base, LAMBDA x : lo <= x /\ x <= hi))
        ELSE IF Len(disc) > 0
             THEN Time(SortedUnique(UNION {ToSet(S.objs[disc[k]].ts) : k \in 1..Len(disc)}))
             ELSE NoTime
PathMonotonic(S, path) == \A k \in 1..Len(path) : Monotonic(S.objs[path[k]].ts)

(* index of the last knot at or before t (0 if none) *)
LastAt(ts, t) == Cardinality({k \in 1..Len(ts) : ts[k] <= t})

(* Invalid samples (gaps) leave what is known at other samples alone; what  *)
(* is interpolated from them or depends on the slope there is unspecified.  *)
(* k: the last sample at or before the time asked for                       *)
Untouched(gap, k) == \A j \in (k - 2)..(k + 3) : j \notin gap

(* the transform of a frame with respect to its parent at time t *)
PoseAt(f, t) ==
    LET k == LastAt(f.ts, t)
        n == Len(f.ts)
    IN  CASE f.kind = "static" -> [t |-> f.tr[1], r |-> f.rot[1], ok |-> TRUE]
          [] f.kind = "disc" -> \* C09
               [t |-> f.tr[Max2(k, 1)], r |-> f.rot[Max2(k, 1)], ok |-> Max2(k, 1) \notin f.gap]
          [] f.kind = "cont" -> \* C08; defined within [ts[1], ts[n]] only
               IF f.ts[k] = t
               THEN [t |-> f.tr[k], r |-> f.rot[k],
                     ok |-> (k = 1 \/ f.ts[k - 1] # t) /\ k \notin f.gap]
               ELSE [t |-> VLerp(f.tr[k], f.tr[k + 1],
                                 t - f.ts[k], f.ts[k + 1] - f.ts[k]),
                     r |-> IF f.h = <<>> THEN QOne
                           ELSE IF ~RateOk(f.h, f.ts) THEN QOne
                           ELSE QMul(f.rot[1], QPow(f.h, t - f.ts[1])),
                     ok |-> f.h # <<>> /\ RateOk(f.h, f.ts) /\ Untouched(f.gap, k)]

(* what is involved in a lookup, to attribute a deviation *)
Feat(S, path) == {S.objs[path[k]].kind : k \in 1..Len(path)}
                 \cup {"inv" : k \in {k \in 1..Len(path) : S.objs[path[k]].inv}}
                 \cup (IF Len(path) > 1 THEN {"multi"} ELSE {})

(* C04: composition along the path: own transforms going up, inverses       *)
(* going down *)
Compose(S, up, down, t) ==
    LET U[k \in 0..Len(up)] ==
            IF k = 0 THEN PoseId ELSE PoseMul(PoseAt(S.objs[up[k]], t), U[k - 1])
        D[k \in 0..Len(down)] ==
            IF k = 0 THEN U[Len(up)]
            ELSE PoseMul(PoseInv(PoseAt(S.objs[down[k]], t)), D[k - 1])
    IN  D[Len(down)]

ErrRes == [res |-> "err", feat |-> {}]
LookupTransform(S, a, b, arr) ==
    IF a = -1 \/ b = -1 \/ a = 0 \/ b = 0 THEN ErrRes
    ELSE IF ~SameTree(S, a, b) THEN ErrRes
    ELSE LET path == Path(S, a, b)
             tb == TimeBase(S, path, arr)
             up == UpPath(S, a, b)
             down == DownPath(S, a, b)
         IN  IF ~PathMonotonic(S, path) THEN [res |-> "err", feat |-> {"order"}]
             ELSE [res |-> "ok", feat |-> Feat(S, path), has |-> tb.has, ts |-> tb.ts,
                   poses |-> IF tb.has
                             THEN [k \in 1..Len(tb.ts) |-> Compose(S, up, down, tb.ts[k])]
                             ELSE << Compose(S, up, down, 0) >>]

---------------------------------------------------------------------------
(* Arrays of vectors or quaternions: [vecs, rsh, tpos, ts, has, q, h]       *)
(*   rsh  : shape of the axes other than the spatial one, in order          *)
(*   vecs : the vectors in row-major order over these axes                  *)
(*   has  : whether the array has timestamps; ts: these; tpos: the position *)
(*          of the time axis in rsh                                         *)
(*   q    : quaternions rather than vectors                                 *)
(*   h    : per column of a quaternion array (row-major over the other      *)
(*          axes) the rotation per tick on its right, or <<>>               *)
(*   gap  : (optional) indices into vecs of invalid elements                *)
Prod(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN 1 ELSE f[k - 1] * s[k] IN f[Len(s)]
Stride(rsh, p) == Prod(SubSeq(rsh, p + 1, Len(rsh)))
(* value of column (b, a) -- b before, a after the time axis -- at sample k *)
At(rsh, p, b, k, a) == ((b * rsh[p]) + (k - 1)) * Stride(rsh, p) + a + 1

Elem(q, x) == IF q THEN [t |-> VZero, r |-> x, ok |-> TRUE]
              ELSE [t |-> x, r |-> QOne, ok |-> TRUE]

ArrGap(arr) == IF "gap" \in DOMAIN arr THEN ToSet(arr.gap) ELSE {}

(* C10: the value of a column at time t *)
Resampled(arr, b, a, t) ==
    LET k == LastAt(arr.ts, t)
        st == Stride(arr.rsh, arr.tpos)
        v(j) == arr.vecs[At(arr.rsh, arr.tpos, b, j, a)]
        gap == {j \in 1..Len(arr.ts) : At(arr.rsh, arr.tpos, b, j, a) \in ArrGap(arr)}
        hh == IF arr.q THEN arr.h[b * st + a + 1] ELSE <<>>
    IN  IF arr.ts[k] = t
        THEN [v |-> v(k), ok |-> (k = 1 \/ arr.ts[k - 1] # t) /\ k \notin gap]
        ELSE IF ~arr.q
        THEN [v |-> VLerp(v(k), v(k + 1), t - arr.ts[k], arr.ts[k + 1] - arr.ts[k]),
              ok |-> {k, k + 1} \cap gap = {}]
        ELSE IF hh = <<>> \/ ~RateOk(hh, arr.ts) \/ ~Untouched(gap, k) THEN [v |-> QOne, ok |-> FALSE]
        ELSE [v |-> QMul(v(1), QPow(hh, t - arr.ts[1])), ok |-> TRUE]

(* C06: what a pose does to an element *)
Apply(kind, pose, e) ==
    IF ~pose.ok \/ ~e.ok THEN <<>>
    ELSE CASE kind = "vectors" -> Rotate(pose.r, e.v)
           [] kind = "points"  -> VAdd(Rotate(pose.r, e.v), pose.t)
           [] kind = "quaternions" -> QMul(pose.r, e.v)

(* vecs: <<>> stands for an unspecified value *)
TransformArray(S, kind, a, b, arr) ==
    IF arr.has /\ (Len(arr.ts) # arr.rsh[arr.tpos] \/ ~Monotonic(arr.ts))
    THEN [res |-> "err", feat |-> {"order"}]
    ELSE LET L == LookupTransform(S, a, b, [has |-> arr.has, ts |-> arr.ts])
         IN IF L.res = "err" THEN L
            ELSE IF arr.has
            THEN LET n == Len(L.ts)
                     rsh == [arr.rsh EXCEPT ![arr.tpos] = n]
                     st == Stride(rsh, arr.tpos)
                 IN [res |-> "ok", feat |-> L.feat, has |-> TRUE, ts |-> L.ts, rsh |-> rsh, lead |-> FALSE,
                     vecs |-> [m \in 1..Prod(rsh) |->
                        LET a0 == (m - 1) % st
                            k == (((m - 1) \div st) % n) + 1
                            b0 == (m - 1) \div (st * n)
                        IN  Apply(kind, L.poses[k], Resampled(arr, b0, a0, L.ts[k]))]]
            ELSE IF ~L.has
            THEN [res |-> "ok", feat |-> L.feat, has |-> FALSE, ts |-> <<>>, rsh |-> arr.rsh, lead |-> FALSE,
                  vecs |-> [m \in 1..Len(arr.vecs) |->
                     Apply(kind, L.poses[1], [v |-> arr.vecs[m], ok |-> m \notin ArrGap(arr)])]]
            ELSE IF arr.rsh = <<>>
            THEN [res |-> "ok", feat |-> L.feat, has |-> TRUE, ts |-> L.ts, rsh |-> <<Len(L.ts)>>, lead |-> TRUE,
                  vecs |-> [k \in 1..Len(L.ts) |->
                     Apply(kind, L.poses[k], [v |-> arr.vecs[1], ok |-> 1 \notin ArrGap(arr)])]]
            ELSE [res |-> "any"]
=============================================================================
