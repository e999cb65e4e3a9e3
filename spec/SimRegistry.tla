----------------------------- MODULE SimRegistry ---------------------------
(* Random walks through MCRegistry, emitted as complete histories with the  *)
(* projection of the state after every call. *)
EXTENDS MCRegistry
VARIABLES posts, done
SimInit == Init /\ posts = <<>> /\ done = FALSE
\* the final stuttering step has a single successor: one emission per walk
SimNext == IF Len(hist) < MaxSteps
           THEN Next /\ posts' = Append(posts, Proj(S')) /\ UNCHANGED done
           ELSE ~done /\ done' = TRUE /\ UNCHANGED <<vars, posts>>
SimSpec == SimInit /\ [][SimNext]_<<vars, posts, done>>
EmitHist == done =>
    PrintT("H " \o ToJson([hist |-> hist, posts |-> posts,
        dist |-> [a \in Ids |-> [b \in Ids |-> Dist(S, a, b)]],
        trees |-> [a \in Ids |-> PreOrder(S, a, 0)]]))
=============================================================================
