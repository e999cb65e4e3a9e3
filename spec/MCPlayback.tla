----------------------------- MODULE MCPlayback ----------------------------
(* All states of the controls for up to MaxN samples, and their transitions *)
(* (emitted); whoever keeps pressing a button arrives at the end.  Design   *)
(* "stuck": the backward button of a control that never leaves the end.     *)
EXTENDS Playback, Json, TLC
CONSTANTS MaxN, MaxStep, MaxSkip, Design
VARIABLES W, dir
vars == <<W, dir>>
Init == /\ \E n \in 2..MaxN, st \in 1..MaxStep, sk \in 0..MaxSkip, i \in 0..(MaxN - 1) :
             i < n /\ W = [n |-> n, step |-> st, skip |-> sk, idx |-> i]
        /\ dir \in {"forward", "back", "tick"}
Press(op) == IF Design = "stuck" /\ op = "back" /\ W.idx = W.n - 1 THEN W
             ELSE StepW(W, [op |-> op]).S
Next == /\ W' = Press(dir) /\ dir' = dir
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InRange == W.idx \in 0..(W.n - 1)
Moves == {[op |-> o] : o \in {"forward", "back", "tick"}} \cup {[op |-> "set", i |-> i] : i \in 0..(W.n - 1)}
Publishes == \A op \in Moves :
    LET r == StepW(W, op)
    IN  /\ r.S.idx \in 0..(W.n - 1)
        /\ r.out.published = IF r.S.idx = W.idx THEN <<>> ELSE <<r.S.idx>>
Inverse == /\ W.idx + Jump(W) < W.n => StepW(StepW(W, [op |-> "forward"]).S, [op |-> "back"]).S = W
           /\ W.idx - Jump(W) >= 0 => StepW(StepW(W, [op |-> "back"]).S, [op |-> "forward"]).S = W
Arrives == /\ dir = "forward" ~> W.idx = W.n - 1
           /\ dir = "back" ~> W.idx = 0
           /\ dir = "tick" ~> W.idx > W.n - 1 - W.step
Emit == dir = "tick" =>
    \A op \in Moves :
        PrintT("K " \o ToJson([w |-> W, op |-> op, out |-> StepW(W, op).out]))
=============================================================================
