---------------------------- MODULE PublisherAlg ---------------------------
(* The loop of the publishers in transformer.py and visualization.py at the *)
(* granularity of its calls into ROS, next to the contract of Publisher.tla *)
(* (variable P).  Design:                                                   *)
(*   "token" : every spin has a stop token of its own (the code)            *)
(*   "flag"  : one flag, lowered by the thread when it begins               *)
(*   "spin"  : one flag, lowered by spin                                    *)
(* TLC shows that "token" satisfies the contract whatever the interleaving  *)
(* of commands and threads, and finds the histories in which the others do  *)
(* not.  The explored histories are the schedules the code is driven with.  *)
EXTENDS Publisher, TLC, Json

CONSTANTS Kind, Design, Samples, MaxSpins, MaxCmds, Depth, Emitting

VARIABLES pc, tok, flag, down, idx, seen, content, P, hist, cmds
vars == <<pc, tok, flag, down, idx, seen, content, P, hist, cmds>>

Gaps == [k \in 1..Samples |-> k]
Init == /\ pc = <<>> /\ tok = <<>> /\ flag = TRUE /\ down = FALSE /\ idx = 0 /\ seen = -1 /\ content = 0
        /\ P = Fresh(Kind, Samples, Gaps, 1) /\ hist = <<>> /\ cmds = 0

Note(e) == hist' = Append(hist, e)
Command == cmds < MaxCmds /\ cmds' = cmds + 1

DoSpin ==
    /\ Len(pc) < MaxSpins /\ Command
    /\ pc' = Append(pc, "begin")
    /\ tok' = Append([i \in 1..Len(tok) |-> TRUE], FALSE) \* TRUE: told to stop
    /\ flag' = IF Design = "spin" THEN FALSE ELSE flag
    /\ P' = Apply(P, [e |-> "spin"])
    /\ Note("spin") /\ UNCHANGED <<down, idx, seen, content>>
DoStop ==
    /\ Len(pc) > 0 /\ Command
    /\ tok' = [i \in 1..Len(tok) |-> TRUE] /\ flag' = TRUE
    /\ P' = Apply(P, [e |-> "stop"])
    /\ Note("stop") /\ UNCHANGED <<pc, down, idx, seen, content>>
DoDown ==
    /\ ~down /\ Len(pc) > 0 /\ Command
    /\ down' = TRUE
    /\ P' = Apply(P, [e |-> "down"])
    /\ Note("down") /\ UNCHANGED <<pc, tok, flag, idx, seen, content>>
DoChange ==
    /\ Kind = "marker" /\ Command
    /\ content' = 1 - content
    /\ P' = Apply(P, [e |-> "change", s |-> 1 - content])
    /\ Note("change") /\ UNCHANGED <<pc, tok, flag, down, idx, seen>>

Falls(Q, i) == \* begins to sleep
    LET c == P.runs[i].cur
    IN  Apply(Q, [e |-> "slept", i |-> i,
                  s |-> IF Kind # "tf" THEN 1 ELSE IF c + 1 < Samples THEN Gaps[c + 1] ELSE 0])
Told(i) == IF Design = "token" THEN tok[i] ELSE flag
Step(i) ==
    LET Q == Apply(P, [e |-> "step", i |-> i])
    IN
    /\ pc[i] # "end"
    /\ CASE pc[i] = "begin" ->
              /\ flag' = IF Design = "flag" THEN FALSE ELSE flag
              /\ pc' = [pc EXCEPT ![i] = "check"] /\ P' = Q /\ UNCHANGED <<idx, seen>>
         [] pc[i] = "check" /\ (down \/ Told(i)) ->
              /\ pc' = [pc EXCEPT ![i] = "end"] /\ P' = Apply(Q, [e |-> "end", i |-> i])
              /\ UNCHANGED <<flag, idx, seen>>
         [] pc[i] = "check" /\ Kind = "tf" ->
              /\ idx' = (idx + 1) % Samples /\ P' = Apply(Q, [e |-> "pub", i |-> i, s |-> idx])
              /\ pc' = [pc EXCEPT ![i] = "sent"] /\ UNCHANGED <<flag, seen>>
         [] pc[i] = "check" /\ Kind = "marker" /\ content # seen ->
              /\ seen' = content /\ P' = Apply(Q, [e |-> "pubm", i |-> i, s |-> content])
              /\ pc' = [pc EXCEPT ![i] = "sent"] /\ UNCHANGED <<flag, idx>>
         [] pc[i] = "check" ->
              /\ pc' = [pc EXCEPT ![i] = "sleep"] /\ P' = Falls(Q, i) /\ UNCHANGED <<flag, idx, seen>>
         [] pc[i] = "sent" ->
              /\ pc' = [pc EXCEPT ![i] = "sleep"] /\ P' = Falls(Q, i) /\ UNCHANGED <<flag, idx, seen>>
         [] pc[i] = "sleep" ->
              /\ pc' = [pc EXCEPT ![i] = "check"] /\ P' = Q /\ UNCHANGED <<flag, idx, seen>>
    /\ Note(ToString(i)) /\ UNCHANGED <<tok, down, content, cmds>>

Bounded == Len(hist) < Depth
Next == Bounded /\ (DoSpin \/ DoStop \/ DoDown \/ DoChange \/ \E i \in 1..Len(pc) : Step(i))
Spec == Init /\ [][Next]_vars

Contract == P.why = ""
Emit == Emitting /\ Len(hist) = Depth => PrintT("K " \o ToJson([h |-> hist]))

=============================================================================
