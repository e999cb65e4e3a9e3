-------------------------------- MODULE Run --------------------------------
(* Executes histories of calls (JSON, environment variable VERIF_IN) on     *)
(* Machine and prints the outcome of every call; the invariants of Frames   *)
(* and the algebraic theorems about lookups are checked on the way.         *)
EXTENDS Machine, Json, IOUtils

Scen == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, k, S, outs
vars == <<n, k, S, outs>>

Init == n = 1 /\ k = 0 /\ S = EmptyState /\ outs = <<>>
Next ==
    IF n > Len(Scen) THEN FALSE
    ELSE IF k < Len(Scen[n].ops)
    THEN LET r == Step(S, Scen[n].ops[k + 1])
         IN  /\ S' = r.S
             /\ outs' = Append(outs, r.out)
             /\ k' = k + 1
             /\ n' = n
    ELSE /\ PrintT("R " \o ToJson([n |-> Scen[n].id, outs |-> outs]))
         /\ n' = n + 1 /\ k' = 0 /\ S' = EmptyState /\ outs' = <<>>
Spec == Init /\ [][Next]_vars

Inv == WellFormed(S)
=============================================================================
