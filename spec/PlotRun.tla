------------------------------- MODULE PlotRun -----------------------------
(* Executes histories of calls including plots (JSON, environment variable  *)
(* VERIF_IN) and prints the outcome of every call.                          *)
EXTENDS Machine, Plot, Json, IOUtils

Scen == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, k, P, outs
vars == <<n, k, P, outs>>
StepAll(Q, op) ==
    IF IsPlot(op) THEN StepP(Q, op)
    ELSE LET r == Step(Q.F, op) IN [S |-> [Q EXCEPT !.F = r.S], out |-> r.out]
Init == n = 1 /\ k = 0 /\ P = Start /\ outs = <<>>
Next ==
    IF n > Len(Scen) THEN FALSE
    ELSE IF k < Len(Scen[n].ops)
    THEN LET r == StepAll(P, Scen[n].ops[k + 1])
         IN  /\ P' = r.S
             /\ outs' = Append(outs, r.out)
             /\ k' = k + 1
             /\ n' = n
    ELSE /\ PrintT("R " \o ToJson([n |-> Scen[n].id, outs |-> outs]))
         /\ n' = n + 1 /\ k' = 0 /\ P' = Start /\ outs' = <<>>
Spec == Init /\ [][Next]_vars
Inv == WellFormed(P.F)
=============================================================================
