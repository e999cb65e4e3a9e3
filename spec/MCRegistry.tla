----------------------------- MODULE MCRegistry ----------------------------
(* The registry/frame-tree machine.  One action per public call; every      *)
(* rejected call is an action too.  With VIEW the state graph is explored   *)
(* modulo the history; ACTION_CONSTRAINT Emit prints every transition with  *)
(* a history that reaches it, to be replayed on the library.                *)
EXTENDS Frames, Json

CONSTANTS Names,     \* frame names
          MaxObjs,   \* number of frames that can be created
          MaxSteps,  \* length of a history
          WithNone   \* whether frames without name are created as well

VARIABLES S,         \* library state
          last,      \* the last call and its outcome
          hist       \* all calls so far with their outcome (hidden by VIEW)
vars == <<S, last, hist>>

Tag(i) == [NoTf EXCEPT !.trsh = <<3>>, !.tr = << <<2^(i-1), 0, 0, 1>> >>]
(* ways in which a construction can be invalid *)
BadTf(b) ==
    CASE b = "trshape"  -> [NoTf EXCEPT !.trsh = <<4>>]
      [] b = "rotshape" -> [NoTf EXCEPT !.rotsh = <<3>>]
      [] b = "tsshape"  -> [NoTf EXCEPT !.tssh = <<2, 2>>]
      [] b = "trts"     -> [NoTf EXCEPT !.tssh = <<2>>, !.ts = <<0, 1>>, !.trsh = <<3>>]
      [] b = "rotts"    -> [NoTf EXCEPT !.tssh = <<2>>, !.ts = <<0, 1>>, !.rotsh = <<3, 4>>]
      [] b = "trnots"   -> [NoTf EXCEPT !.trsh = <<2, 3>>]
      [] b = "disc"     -> [NoTf EXCEPT !.disc = TRUE]
ChildBads == {"trshape", "rotshape", "tsshape", "trts", "rotts", "trnots", "disc"}
RootBads == {"trshape", "rotshape", "tsshape", "disc"}

NameArgs == IF WithNone THEN Names \cup {""} ELSE Names
Ids == 1..Len(S.objs)
None == [k |-> "none"]
Parents == {None} \cup {[k |-> "obj", i |-> j] : j \in Ids}
                  \cup {[k |-> "name", n |-> m] : m \in Names} \cup {[k |-> "bad"]}
NextTf(p) == IF p.k = "none" THEN NoTf ELSE Tag(Len(S.objs) + 1)

Do(r, op) ==
    /\ S' = r.S
    /\ last' = [op |-> op, res |-> r.res]
    /\ hist' = Append(hist, last')

Init == /\ S = EmptyState
        /\ last = [op |-> [op |-> "init"], res |-> "ok"]
        /\ hist = <<>>

CanGrow == Len(S.objs) < MaxObjs

ANew == \E n \in NameArgs, p \in Parents :
    /\ CanGrow
    /\ Do(Construct(S, n, p, NextTf(p)),
          [op |-> "new", name |-> n, parent |-> p, bad |-> "", id |-> Len(S.objs) + 1])
ANewBad == \E n \in {CHOOSE x \in Names : TRUE}, p \in Parents, b \in ChildBads :
    /\ p.k = "none" => b \in RootBads
    /\ Do(Construct(S, n, p, BadTf(b)),
          [op |-> "new", name |-> n, parent |-> p, bad |-> b, id |-> 0])
AReg == \E i \in Ids, u \in BOOLEAN :
    Do(Register(S, i, u), [op |-> "register", id |-> i, update |-> u])
ARegFrame == \E n \in NameArgs, p \in Parents, u \in BOOLEAN :
    /\ CanGrow
    /\ Do(RegisterFrame(S, n, p, NextTf(p), u),
          [op |-> "register_frame", name |-> n, parent |-> p, bad |-> "",
           update |-> u, id |-> Len(S.objs) + 1])
ARegFrameBad == \E n \in Names, p \in Parents, u \in BOOLEAN, b \in ChildBads :
    /\ p.k = "none" => b \in RootBads
    /\ Do(RegisterFrame(S, n, p, BadTf(b), u),
          [op |-> "register_frame", name |-> n, parent |-> p, bad |-> b,
           update |-> u, id |-> 0])
ADeregName == \E n \in Names :
    Do(DeregisterName(S, n), [op |-> "deregister_frame", name |-> n])
ADeregObj == \E i \in Ids :
    Do(DeregisterObj(S, i), [op |-> "deregister", id |-> i])
AClear == Do(Clear(S), [op |-> "clear"])
(* the caller forgets its reference; a collected frame changes nothing *)
AForget == \E i \in Ids : Do(Ok(S), [op |-> "forget", id |-> i])

Next == /\ Len(hist) < MaxSteps
        /\ \/ ANew \/ ANewBad \/ AReg \/ ARegFrame \/ ARegFrameBad
           \/ ADeregName \/ ADeregObj \/ AClear \/ AForget
Spec == Init /\ [][Next]_vars

View == <<S, Len(hist)>>
ViewState == S

---------------------------------------------------------------------------
Inv == WellFormed(S)
(* C01: a name resolves to the last successful registration under it not    *)
(* since undone -- computed from the history alone                          *)
RegisterOps(k) ==
    LET e == hist[k] IN
    e.res = "ok" /\ e.op.op \in {"register", "register_frame"}
NameOf(k) == S.objs[hist[k].op.id].name
Undone(k, n) ==
    LET e == hist[k] IN e.res = "ok" /\
        \/ e.op.op = "clear"
        \/ e.op.op = "deregister_frame" /\ e.op.name = n
        \/ e.op.op = "deregister" /\ S.objs[e.op.id].name = n
InvHistory == \A n \in Names :
    LET regs == {k \in 1..Len(hist) : RegisterOps(k) /\ NameOf(k) = n}
        lastk == CHOOSE k \in regs : \A j \in regs : j <= k
    IN  IF regs = {} \/ (\E j \in lastk..Len(hist) : Undone(j, n))
        THEN n \notin DOMAIN S.reg
        ELSE n \in DOMAIN S.reg /\ S.reg[n] = hist[lastk].op.id
(* C02 *)
FailuresAreAtomic == [][last'.res = "err" => S' = S]_vars
(* C03: the only edge ever removed is the one above a replaced frame *)
EdgesStable == [][\A i \in 1..Len(S.objs) :
    S'.objs[i].parent # S.objs[i].parent =>
        /\ last'.op.op \in {"register", "register_frame"} /\ last'.op.update
        /\ S'.objs[i].parent = 0
        /\ S.objs[i].name \in DOMAIN S.reg /\ S.reg[S.objs[i].name] = i
        /\ S'.reg[S.objs[i].name] # i]_vars

---------------------------------------------------------------------------
(* What the harness compares after a call *)
Proj(T) == [objs |-> [i \in 1..Len(T.objs) |->
                       <<T.objs[i].name, T.objs[i].parent, T.objs[i].kids>>],
            reg  |-> {<<n, T.reg[n]>> : n \in DOMAIN T.reg}]
Emit == PrintT("T " \o ToJson([pre |-> hist, step |-> last', post |-> Proj(S')]))
(* once per distinct state: positions of all frames in all others *)
XSum(T, s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE f[k-1] + T.objs[s[k]].tr[1][1]
              IN  f[Len(s)]
Dist(T, a, b) == IF SameTree(T, a, b)
                 THEN <<XSum(T, UpPath(T, a, b)) - XSum(T, DownPath(T, a, b))>>
                 ELSE <<>>
EmitState == PrintT("S " \o ToJson([post |-> Proj(S),
    dist |-> [a \in Ids |-> [b \in Ids |-> Dist(S, a, b)]],
    trees |-> [a \in Ids |-> PreOrder(S, a, 0)]]))

=============================================================================
