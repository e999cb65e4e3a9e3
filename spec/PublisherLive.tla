---------------------------- MODULE PublisherLive --------------------------
(* The same loops without bookkeeping: under fairness of the threads every  *)
(* run that was told to stop ends, and a run that was not keeps publishing. *)
EXTENDS Integers, Sequences

CONSTANTS Design, MaxSpins, MaxCmds
VARIABLES pc, tok, flag, down, told, cmds, msgs
vars == <<pc, tok, flag, down, told, cmds, msgs>>
Runs == 1..MaxSpins

Init == /\ pc = [i \in Runs |-> "none"] /\ tok = [i \in Runs |-> FALSE] /\ flag = TRUE /\ down = FALSE
        /\ told = [i \in Runs |-> FALSE] /\ cmds = 0 /\ msgs = [i \in Runs |-> 0]
Started(i) == pc[i] # "none"
Command == cmds < MaxCmds /\ cmds' = cmds + 1
DoSpin ==
    /\ Command /\ \E i \in Runs :
          /\ ~Started(i) /\ \A j \in 1..(i - 1) : Started(j)
          /\ pc' = [pc EXCEPT ![i] = "begin"]
          /\ tok' = [j \in Runs |-> j < i]
          /\ told' = [told EXCEPT ![i] = down]
    /\ flag' = IF Design = "spin" THEN FALSE ELSE flag
    /\ UNCHANGED <<down, msgs>>
DoStop ==
    /\ Command
    /\ told' = [i \in Runs |-> told[i] \/ Started(i)]
    /\ tok' = [i \in Runs |-> Started(i)] /\ flag' = TRUE
    /\ UNCHANGED <<pc, down, msgs>>
DoDown ==
    /\ Command /\ down' = TRUE
    /\ told' = [i \in Runs |-> told[i] \/ Started(i)]
    /\ UNCHANGED <<pc, tok, flag, msgs>>
Told(i) == IF Design = "token" THEN tok[i] ELSE flag
Step(i) ==
    /\ pc[i] \in {"begin", "check", "sleep"}
    /\ CASE pc[i] = "begin" -> /\ flag' = IF Design = "flag" THEN FALSE ELSE flag
                               /\ pc' = [pc EXCEPT ![i] = "check"] /\ UNCHANGED msgs
         [] pc[i] = "check" -> /\ pc' = [pc EXCEPT ![i] = IF down \/ Told(i) THEN "end" ELSE "sleep"]
                               /\ msgs' = IF down \/ Told(i) THEN msgs ELSE [msgs EXCEPT ![i] = (@ + 1) % 3]
                               /\ UNCHANGED flag
         [] pc[i] = "sleep" -> pc' = [pc EXCEPT ![i] = "check"] /\ UNCHANGED <<flag, msgs>>
    /\ UNCHANGED <<tok, down, told, cmds>>
Next == DoSpin \/ DoStop \/ DoDown \/ \E i \in Runs : Step(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Runs : WF_vars(Step(i))

Ends == \A i \in Runs : told[i] ~> pc[i] = "end"
(* the latest run, if it is never told to stop, publishes again and again *)
Latest(i) == Started(i) /\ \A j \in Runs : j > i => ~Started(j)
Publishes == \A i \in Runs : <>[](Latest(i) /\ ~told[i]) => []<>(msgs[i] = 1)
=============================================================================
