------------------------------ MODULE MCMaster -----------------------------
(* All histories of starting and stopping ROS masters.                      *)
EXTENDS Playback, Json, TLC
CONSTANT MaxSteps
VARIABLES M, hist
Ops == {[op |-> "elsewhere", up |-> u] : u \in BOOLEAN}
       \cup {[op |-> "init", start |-> s, name |-> n] : s \in BOOLEAN, n \in {"a", "b"}}
       \cup {[op |-> "shutdown", h |-> h] : h \in 1..2}
Init == M = NoMaster /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ \E op \in Ops :
             LET r == StepM(M, op)
             IN  /\ r.out.res # "skip"
                 \* a master that runs is not started again, and only its owner stops it
                 /\ op.op = "elsewhere" => (IF op.up THEN M.run = 0 ELSE M.run = Other)
                 /\ M' = r.S
                 /\ hist' = Append(hist, [op |-> op, out |-> r.out])
Spec == Init /\ [][Next]_<<M, hist>>
(* a node is registered only with a running master; a master that was       *)
(* started elsewhere is never stopped by a handle                           *)
Registered == hist # <<>> => LET e == hist[Len(hist)]
                             IN  (e.op.op = "init" /\ e.out.res = "ok") => M.run # 0
OnlyOwner == [][(\E h \in 1..2 : hist' = Append(hist, hist'[Len(hist')]) /\ hist'[Len(hist')].op = [op |-> "shutdown", h |-> h])
                => (M.run = Other => M'.run = Other)]_<<M, hist>>
Emit == Len(hist) = MaxSteps => PrintT("K " \o ToJson([ops |-> [k \in 1..Len(hist) |-> hist[k].op],
                                                       outs |-> [k \in 1..Len(hist) |-> hist[k].out],
                                                       exit |-> StepM(M, [op |-> "exit"]).out]))
=============================================================================
