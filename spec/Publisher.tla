------------------------------ MODULE Publisher ----------------------------
(* C23: the contract of a publisher that can be told to spin and to stop.   *)
(*                                                                          *)
(* The state is what an observer knows; Apply yields the next state for an  *)
(* observed event and notes in .why the first event the contract forbids.   *)
(*   kind   "tf" (n samples, published cyclically), "marker" (a content     *)
(*          that is published when it changed), "wait" (reacts to others    *)
(*          and publishes nothing on its own)                               *)
(*   runs   one record per spin: ended; cancel (stopped or node shut down   *)
(*          since); super (another spin came while it was running); extra   *)
(*          (messages begun since cancel); cur (its latest sample); first   *)
(*          (the sample it must begin with, -1 if open); idle (steps since  *)
(*          the last thing it had to do); slept (ticks since its latest     *)
(*          sample, -1 if it has not slept)                                 *)
EXTENDS Integers, Sequences, FiniteSets

Bound == 12 \* steps within which a thread has to react

Fresh(kind, n, gaps, pause) ==
    [kind |-> kind, n |-> n, gaps |-> gaps, pause |-> pause, runs |-> <<>>, down |-> FALSE, last |-> -1,
     ver |-> 0, out |-> -1, why |-> ""]
Bad(P, why) == IF P.why = "" THEN [P EXCEPT !.why = why] ELSE P

Live(r) == ~r.ended /\ ~r.cancel
Quiet(P) == \A i \in 1..Len(P.runs) : P.runs[i].ended
(* whether the run still owes something *)
Due(P, r) == IF r.cancel THEN TRUE
             ELSE CASE P.kind = "tf" -> ~r.super
                    [] P.kind = "marker" -> ~r.super /\ P.ver # P.out
                    [] OTHER -> FALSE
Loose(P) == \E i \in 1..Len(P.runs) : P.runs[i].super

Spin(P) ==
    [P EXCEPT !.runs = Append(
        [i \in 1..Len(@) |-> IF Live(@[i]) THEN [@[i] EXCEPT !.super = TRUE] ELSE @[i]],
        [ended |-> FALSE, cancel |-> P.down, super |-> FALSE, extra |-> 0, cur |-> -1,
         first |-> IF P.kind = "tf" /\ Quiet(P) /\ ~Loose(P) THEN (P.last + 1) % P.n ELSE -1,
         idle |-> 0, slept |-> -1])]
CancelAll(P) == [P EXCEPT !.runs = [i \in 1..Len(@) |->
    IF Live(@[i]) THEN [@[i] EXCEPT !.cancel = TRUE, !.idle = 0] ELSE @[i]]]
Stop(P) == CancelAll(P)
Down(P) == [CancelAll(P) EXCEPT !.down = TRUE]

StepOf(P, i) ==
    IF P.runs[i].ended THEN P
    ELSE LET Q == [P EXCEPT !.runs[i].idle = IF Due(P, P.runs[i]) THEN @ + 1 ELSE 0]
         IN  IF Q.runs[i].idle > Bound
             THEN Bad(Q, IF P.runs[i].cancel THEN "a cancelled run goes on" ELSE "a run does not publish")
             ELSE Q
Begun(P, i) == \* a message is begun
    LET r == P.runs[i]
        Q == [P EXCEPT !.runs[i].extra = IF r.cancel THEN @ + 1 ELSE 0,
                       !.runs[i].idle = IF r.cancel THEN @ ELSE 0]
    IN  IF r.ended THEN Bad(Q, "published after its end")
        ELSE IF Q.runs[i].extra > 1 THEN Bad(Q, "published again after being cancelled") ELSE Q
Pub(P, i, s) ==
    LET r == P.runs[i]
        Q == [Begun(P, i) EXCEPT !.runs[i].cur = s, !.last = s, !.runs[i].slept = -1]
    IN  IF P.kind # "tf" THEN Bad(Q, "published on its own")
        ELSE IF Loose(P) THEN Q
        ELSE IF r.cur = -1 /\ r.first # -1 /\ s # r.first THEN Bad(Q, "does not begin with the next sample")
        ELSE IF r.cur # -1 /\ s # (r.cur + 1) % P.n THEN Bad(Q, "samples out of order")
        ELSE IF r.cur # -1 /\ r.cur + 1 < P.n /\ r.slept # P.gaps[r.cur + 1]
             THEN Bad(Q, "did not wait for the time between the samples")
        ELSE Q
PubMarker(P, i, v) ==
    LET r == P.runs[i]
        Q == [Begun(P, i) EXCEPT !.out = v, !.runs[i].slept = -1, !.runs[i].cur = v]
    IN  IF P.kind # "marker" THEN Bad(Q, "published on its own")
        ELSE IF v = P.out THEN Bad(Q, "published an unchanged marker")
        ELSE IF v # P.ver THEN Bad(Q, "published an outdated marker")
        ELSE IF r.cur # -1 /\ r.slept < P.pause THEN Bad(Q, "did not sleep for the interval") ELSE Q
Slept(P, i, d) ==
    LET Q == [P EXCEPT !.runs[i].slept = IF @ = -1 THEN d ELSE @ + d]
    IN  IF P.kind = "marker" /\ d # P.pause THEN Bad(Q, "did not sleep for the interval") ELSE Q
Change(P, v) == [P EXCEPT !.ver = v, !.runs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.idle = IF P.runs[i].cancel THEN @ ELSE 0]]]
End(P, i) ==
    LET r == P.runs[i]
        Q == [P EXCEPT !.runs[i].ended = TRUE]
    IN  IF ~r.cancel /\ ~r.super THEN Bad(Q, "ended without being told to") ELSE Q

Apply(P, e) ==
    CASE e.e = "spin" -> Spin(P)
      [] e.e = "stop" -> Stop(P)
      [] e.e = "down" -> Down(P)
      [] e.e = "step" -> StepOf(P, e.i)
      [] e.e = "pub" -> Pub(P, e.i, e.s)
      [] e.e = "pubm" -> PubMarker(P, e.i, e.s)
      [] e.e = "slept" -> Slept(P, e.i, e.s)
      [] e.e = "change" -> Change(P, e.s)
      [] e.e = "end" -> End(P, e.i)
      [] e.e = "alive" -> IF P.runs[e.i].ended THEN P ELSE Bad(P, "thread still there")
=============================================================================
