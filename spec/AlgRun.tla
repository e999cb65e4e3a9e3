------------------------------- MODULE AlgRun ------------------------------
(* Evaluates histories of stateless calls (JSON, environment VERIF_IN).     *)
EXTENDS Estimate, OptiTrack, Json, IOUtils
C == INSTANCE Coords
M == INSTANCE Smooth

Scen == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, k, outs
vars == <<n, k, outs>>

Step(op) == CASE op.op = "qmul" -> Mul(op)
              [] op.op = "qinv" -> Inv(op)
              [] op.op = "rot" -> RotateArr(op)
              [] op.op = "qmean" -> Mean(op)
              [] op.op = "qinterp" -> Interp(op)
              [] op.op = "laqinterp" -> InterpLabelled(op)
              [] op.op = "euler" -> Euler(op)
              [] op.op = "coords" -> C!TransformCoords(op)
              [] op.op = "bfr" -> BestRotation(op)
              [] op.op = "bft" -> BestTransform(op)
              [] op.op = "icp" -> Icp(op)
              [] op.op = "optitrack" -> Import(op)
              [] op.op = "arc" -> ShortestArc(op)
              [] op.op = "smlin" -> M!SmoothLin(op)
              [] op.op = "smang" -> M!SmoothAng(op)
              [] op.op = "fillin" -> M!FiltLin(op)
              [] op.op = "filang" -> M!FiltAng(op)

Init == n = 1 /\ k = 0 /\ outs = <<>>
Next ==
    IF n > Len(Scen) THEN FALSE
    ELSE IF k < Len(Scen[n].ops)
    THEN /\ outs' = Append(outs, Step(Scen[n].ops[k + 1]))
         /\ k' = k + 1 /\ n' = n
    ELSE /\ PrintT("R " \o ToJson([n |-> Scen[n].id, outs |-> outs]))
         /\ n' = n + 1 /\ k' = 0 /\ outs' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
