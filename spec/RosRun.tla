------------------------------- MODULE RosRun ------------------------------
(* Executes histories of calls including the ROS interface (JSON,           *)
(* environment variable VERIF_IN) and prints the outcome of every call.     *)
EXTENDS Machine, Ros, Json, IOUtils

Scen == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, k, S, outs
vars == <<n, k, S, outs>>

StepR(T, op) ==
    CASE op.op = "msg" -> Query(T, MsgOp(op))
      [] op.op = "marker" -> Query(T, MarkerOp(op))
      [] op.op = "export" -> Query(T, ExportOp(T, op))
      [] op.op = "broadcast" -> Query(T, BroadcastOp(T, op))
      [] op.op = "path" -> Query(T, PathOp(T, op))
      [] OTHER -> Step(T, op)

Init == n = 1 /\ k = 0 /\ S = EmptyState /\ outs = <<>>
Next ==
    IF n > Len(Scen) THEN FALSE
    ELSE IF k < Len(Scen[n].ops)
    THEN LET r == StepR(S, Scen[n].ops[k + 1])
         IN  /\ S' = r.S
             /\ outs' = Append(outs, r.out)
             /\ k' = k + 1
             /\ n' = n
    ELSE /\ PrintT("R " \o ToJson([n |-> Scen[n].id, outs |-> outs]))
         /\ n' = n + 1 /\ k' = 0 /\ S' = EmptyState /\ outs' = <<>>
Spec == Init /\ [][Next]_vars
Inv == WellFormed(S)
=============================================================================
