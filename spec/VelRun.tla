------------------------------- MODULE VelRun ------------------------------
(* Executes histories of velocity calls (see Run.tla)                       *)
EXTENDS Vel, Json, IOUtils

Scen == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, k, S, outs
vars == <<n, k, S, outs>>

Series2(s) == IF s.res # "ok" THEN s ELSE [res |-> "ok", has |-> s.has, ts |-> s.ts, v |-> s.v, ok |-> s.ok]

(* C14: reference defaults to the parent, the representation frame to the   *)
(* reference (functions) or the parent (methods) *)
Defaults(o) ==
    LET p == S.objs[o.a].parent
        ref == IF o.ref = 0 THEN p ELSE o.ref
    IN  [ref |-> ref, rep |-> IF o.rep # 0 THEN o.rep ELSE IF o.method THEN p ELSE ref]

GradOut(o) == LET s == o
              IN  IF Len(s.ts) < 2 THEN AnyV
                  ELSE [res |-> "ok", cols |-> [c \in 1..Len(s.cols) |->
                         Gradient(s.ts, [j \in 1..Len(s.ts) |-> TV(s.cols[c][j])])]]
RateOut(o) == IF (Len(o.ts) < 4 /\ ~o.rv) \/ Len(o.ts) < 2 THEN AnyV
              ELSE [res |-> "ok", cols |-> [c \in 1..Len(o.cols) |->
                     [j \in 1..Len(o.ts) |-> TRate(o.cols[c].ax, o.cols[c].m)]]]
Put(attrs, key, v) == {p \in ToSet(attrs) : p[1] # key} \cup {<<key, v>>}
(* every column of an array is transformed by itself; several vectors       *)
(* without timestamps are not defined for a moving frame *)
Columns(o, F(_)) ==
    LET r == [c \in 1..Len(o.cols) |-> F([has |-> o.has, ts |-> o.ts, v |-> o.cols[c]])]
    IN  IF r[1].res # "ok" THEN r[1]
        ELSE IF ~o.has /\ o.sh # <<>> /\ r[1].has THEN AnyV
        ELSE [res |-> "ok", has |-> r[1].has, ts |-> r[1].ts, ok |-> r[1].ok,
              cols |-> [c \in 1..Len(r) |-> r[c].v]]
Out(o) ==
    CASE o.op = "frame" -> [res |-> "ok"]
      [] o.op = "lin" -> LET d == Defaults(o) IN Series2(LinVel(S, o.a, d.ref, d.rep, FALSE)) @@ d
      [] o.op = "ang" -> LET d == Defaults(o) IN Series2(AngVel(S, o.a, d.ref, d.rep, FALSE)) @@ d
      [] o.op = "twist" -> LET d == Defaults(o)
                               w == Twist(S, o.a, d.ref, d.rep, FALSE)
                           IN  (IF w.res # "ok" THEN w ELSE [res |-> "ok", lin |-> Series2(w.lin), ang |-> Series2(w.ang)]) @@ d
      [] o.op = "tang" -> Columns(o, LAMBDA arr : TransformAng(S, o.a, o.b, o.what, arr))
                          @@ [attrs |-> Put(SetToSeq(Put(o.attrs, o.what, S.objs[o.b].name)),
                                            "representation_frame", S.objs[o.b].name)]
      [] o.op = "tlin" -> Columns(o, LAMBDA arr : TransformLin(S, o.a, o.b, o.what, o.other, arr))
                          @@ [attrs |-> Put(SetToSeq(Put(o.attrs, o.what, S.objs[o.b].name)),
                                            "representation_frame", S.objs[o.b].name)]
      [] o.op = "estlin" -> GradOut(o)
      [] o.op = "estang" -> RateOut(o)
NextS(o) == IF o.op # "frame" THEN S
            ELSE IF o.parent = 0 THEN AddObj(S, [VRoot EXCEPT !.name = o.name], 0)
            ELSE AddObj(S, VFrame(o), o.parent)

Init == n = 1 /\ k = 0 /\ S = EmptyState /\ outs = <<>>
Next ==
    IF n > Len(Scen) THEN FALSE
    ELSE IF k < Len(Scen[n].ops)
    THEN LET o == Scen[n].ops[k + 1]
         IN  /\ S' = NextS(o)
             /\ outs' = Append(outs, Out(o))
             /\ k' = k + 1
             /\ n' = n
    ELSE /\ PrintT("R " \o ToJson([n |-> Scen[n].id, outs |-> outs]))
         /\ n' = n + 1 /\ k' = 0 /\ S' = EmptyState /\ outs' = <<>>
Spec == Init /\ [][Next]_vars
Inv == Acyclic(S) /\ KidsMatchParents(S) /\ KidsOrdered(S)
=============================================================================
