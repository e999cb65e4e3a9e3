------------------------------ MODULE Playback -----------------------------
(* C26: the playback controls of a publisher and the ROS master.            *)
(*                                                                          *)
(* Controls: [n, step, skip, idx, play]: n samples, one shown (from 0).     *)
(* Every call yields the indexes published.  Skip 0: not given.             *)
EXTENDS Rat, Sequences

NoControls == [n |-> 0, step |-> 1, skip |-> 0, idx |-> 0]
Jump(W) == IF W.skip = 0 THEN W.step ELSE W.skip
Clamp(W, i) == Max2(0, Min2(W.n - 1, i))
MoveTo(W, i) == \* a message is published whenever the position changes
    LET j == Clamp(W, i)
    IN  [S |-> [W EXCEPT !.idx = j],
         out |-> [res |-> "ok", idx |-> j, published |-> IF j = W.idx THEN <<>> ELSE <<j>>]]
(* time between two messages, in ticks                                      *)
Interval(op) ==
    LET n == Len(op.ts)
    IN  RMul(Rat(op.ts[n] - op.ts[1], n - 1), RDiv(RInt(op.step), op.speed))
Controls(op) ==
    [S |-> [n |-> Len(op.ts), step |-> op.step, skip |-> op.skip, idx |-> 0],
     out |-> [res |-> "ok", idx |-> 0, published |-> <<0>>, min |-> 0, max |-> Len(op.ts) - 1,
              step |-> op.step, interval |-> Interval(op)]]
Tick(W) == \* playing advances by a step as long as there are samples
    IF W.idx + W.step > W.n - 1 THEN MoveTo(W, W.idx) ELSE MoveTo(W, W.idx + W.step)
StepW(W, op) ==
    CASE op.op = "controls" -> Controls(op)
      [] op.op = "forward" -> MoveTo(W, W.idx + Jump(W))
      [] op.op = "back" -> MoveTo(W, W.idx - Jump(W))
      [] op.op = "set" -> MoveTo(W, op.i)
      [] op.op = "tick" -> Tick(W)

---------------------------------------------------------------------------
(* The master: "none", "other" (started elsewhere) or the number of the     *)
(* call of init_node that started it.  M = [run, handles, nodes].           *)
NoMaster == [run |-> 0, handles |-> <<>>, nodes |-> <<>>]
Other == -1
StepM(M, op) ==
    CASE op.op = "elsewhere" -> \* somebody else starts or stops a master
           [S |-> [M EXCEPT !.run = IF op.up THEN Other ELSE 0], out |-> [res |-> "ok", run |-> op.up]]
      [] op.op = "init" ->
           IF M.run = 0 /\ ~op.start THEN [S |-> M, out |-> [res |-> "err", run |-> FALSE, nodes |-> M.nodes]]
           ELSE LET own == M.run = 0
                    h == Len(M.handles) + 1
                    N == [run |-> IF own THEN h ELSE M.run, handles |-> Append(M.handles, own),
                          nodes |-> Append(M.nodes, op.name)]
                IN  [S |-> N, out |-> [res |-> "ok", run |-> TRUE, started |-> own, nodes |-> N.nodes]]
      [] op.op = "shutdown" ->
           IF op.h > Len(M.handles) THEN [S |-> M, out |-> [res |-> "skip"]]
           ELSE IF M.handles[op.h]
           THEN LET N == [M EXCEPT !.run = IF @ = op.h THEN 0 ELSE @]
                IN  [S |-> N, out |-> [res |-> "ok", run |-> N.run # 0, warns |-> FALSE]]
           ELSE [S |-> M, out |-> [res |-> "ok", run |-> M.run # 0, warns |-> TRUE]]
      [] op.op = "exit" -> \* the end of the process stops what it started
           LET N == [M EXCEPT !.run = IF @ = Other THEN Other ELSE 0]
           IN  [S |-> N, out |-> [res |-> "ok", run |-> N.run # 0]]
=============================================================================
