------------------------------- MODULE Machine -----------------------------
(* One step of the library: a call op in state S yields the next state and  *)
(* an observable outcome: [S, out].  Queries never change the state (C13).  *)
EXTENDS Labels

Cmd(r) == [S |-> r.S, out |-> [res |-> r.res]]
Query(S, out) == [S |-> S, out |-> out]

Step(S, op) ==
    CASE op.op = "new" -> Cmd(Construct(S, op.name, op.parent, op.tf))
      [] op.op = "register_frame" ->
            Cmd(RegisterFrame(S, op.name, op.parent, op.tf, op.update))
      [] op.op = "register" -> Cmd(Register(S, op.id, op.update))
      [] op.op = "deregister" -> Cmd(DeregisterObj(S, op.id))
      [] op.op = "deregister_frame" -> Cmd(DeregisterName(S, op.name))
      [] op.op = "clear" -> Cmd(Clear(S))
      [] op.op = "lookup" ->
            Query(S, LookupTransform(S, Resolve(S, op.a), Resolve(S, op.b), NoTime))
      [] op.op = "transform" ->
            Query(S, TransformArray(S, op.kind, Resolve(S, op.a), Resolve(S, op.b), op.arr))
      [] op.op = "labelled" ->
            Query(S, TransformLabelled(S, op.kind, op.a, op.b, op.da))
=============================================================================
