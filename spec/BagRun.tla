------------------------------- MODULE BagRun ------------------------------
(* Executes histories of calls on bag files (JSON, environment variable     *)
(* VERIF_IN) and prints the outcome of every call.                          *)
EXTENDS Bag, Json, IOUtils

Scen == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, k, B, outs
vars == <<n, k, B, outs>>
Init == n = 1 /\ k = 0 /\ B = Empty /\ outs = <<>>
Next ==
    IF n > Len(Scen) THEN FALSE
    ELSE IF k < Len(Scen[n].ops)
    THEN LET r == StepB(B, Scen[n].ops[k + 1])
         IN  /\ B' = r.S
             /\ outs' = Append(outs, r.out)
             /\ k' = k + 1
             /\ n' = n
    ELSE /\ PrintT("R " \o ToJson([n |-> Scen[n].id, outs |-> outs]))
         /\ n' = n + 1 /\ k' = 0 /\ B' = Empty /\ outs' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
