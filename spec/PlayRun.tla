------------------------------- MODULE PlayRun -----------------------------
(* Executes histories of playback (JSON, environment variable VERIF_IN).    *)
EXTENDS Playback, Json, IOUtils, TLC
Scen == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, k, W, outs
vars == <<n, k, W, outs>>
Init == n = 1 /\ k = 0 /\ W = NoControls /\ outs = <<>>
Next ==
    IF n > Len(Scen) THEN FALSE
    ELSE IF k < Len(Scen[n].ops)
    THEN LET r == StepW(W, Scen[n].ops[k + 1])
         IN  W' = r.S /\ outs' = Append(outs, r.out) /\ k' = k + 1 /\ n' = n
    ELSE /\ PrintT("R " \o ToJson([n |-> Scen[n].id, outs |-> outs]))
         /\ n' = n + 1 /\ k' = 0 /\ W' = NoControls /\ outs' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
