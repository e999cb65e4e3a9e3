------------------------------- MODULE PubRun ------------------------------
(* Judges traces recorded from the code (JSON, environment VERIF_IN) by the *)
(* contract of Publisher.tla.                                               *)
EXTENDS Publisher, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES n, k, P
vars == <<n, k, P>>
Start(i) == IF i > Len(Scen) THEN <<>> ELSE LET o == Scen[i].ops[1] IN Fresh(o.kind, o.n, o.gaps, o.pause)
Init == n = 1 /\ k = 1 /\ P = Start(1)
Next ==
    IF n > Len(Scen) THEN FALSE
    ELSE IF k < Len(Scen[n].ops)
    THEN n' = n /\ k' = k + 1 /\ P' = Apply(P, Scen[n].ops[k + 1])
    ELSE /\ PrintT("R " \o ToJson([n |-> Scen[n].id, outs |-> <<[why |-> P.why]>>]))
         /\ n' = n + 1 /\ k' = 1 /\ P' = Start(n + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
