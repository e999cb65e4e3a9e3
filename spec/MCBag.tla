------------------------------- MODULE MCBag -------------------------------
(* All histories of calls on two bag files in one folder with two topics    *)
(* whose slugs coincide and a topic of an unsupported type.                 *)
EXTENDS Bag, Json, FiniteSets

CONSTANT MaxSteps
VARIABLES B, hist, versions
vars == <<B, hist, versions>>

Odo(topic, k, recv) == [topic |-> topic, type |-> ODOMETRY, stamp |-> k, recv |-> recv,
    frame |-> "o", child |-> "b", v |-> [i \in 1..13 |-> 100 * k + i]]
Text(topic, recv) == [topic |-> topic, type |-> "geometry_msgs/Vector3Stamped", stamp |-> 0, recv |-> recv,
    frame |-> "", child |-> "", v |-> <<>>]
Topics3 == {"/a/b", "/a_b"}
W(h, topic, n, bad) ==
    LET s == Len(hist)
    IN  [op |-> "write", h |-> h, topic |-> topic, frame |-> "w", child |-> topic, tsd |-> 1, n |-> n,
         tn |-> IF bad = "t" THEN n + 1 ELSE n, rn |-> IF bad = "r" THEN n + 1 ELSE n,
         tw |-> IF bad = "w" THEN 4 ELSE 3, rw |-> IF bad = "w" THEN 3 ELSE 4,
         ts |-> [k \in 1..n |-> 10 * s + k], t |-> [k \in 1..n |-> [i \in 1..3 |-> 100 * s + 10 * k + i]],
         r |-> [k \in 1..n |-> [i \in 1..4 |-> 100 * s + 10 * k + 5 + i]]]
Ops ==
    {[op |-> "record", file |-> "y.bag",
      msgs |-> <<Odo("/a/b", 3, 5), Odo("/a_b", 4, 3), Text("/t", 4), Odo("/a/b", 2, 6), Odo("/a/b", 1, 1)>>]}
    \cup {[op |-> o, h |-> h] : o \in {"enter", "exit"}, h \in 1..3}
    \cup {W(1, topic, 2, "") : topic \in Topics3} \cup {W(1, "/a/b", 1, b) : b \in {"t", "r", "w"}}
    \cup {[op |-> "topics", h |-> h] : h \in 2..3}
    \cup {[op |-> "load", h |-> h, topic |-> t] : h \in 2..3, t \in {"/a/b", "/t"}}
    \cup {[op |-> "cached", h |-> h, topic |-> t, folder |-> "", slug |-> "_a_b"] : h \in 2..3, t \in Topics3}
    \cup {[op |-> "inspect", file |-> "x.bag"]}

Init ==
    /\ B = StepB(StepB(StepB(Empty, [op |-> "handle", role |-> "w", file |-> "x.bag"]).S,
                       [op |-> "handle", role |-> "r", file |-> "x.bag"]).S,
                 [op |-> "handle", role |-> "r", file |-> "y.bag"]).S
    /\ hist = <<>>
    /\ versions = {}
Next ==
    /\ Len(hist) < MaxSteps
    /\ \E op \in Ops :
         LET r == StepB(B, op)
         IN  /\ r.out.res # "skip"
             /\ B' = r.S
             /\ hist' = Append(hist, [op |-> op, out |-> r.out])
             /\ versions' = versions \cup {r.S.disk[k] : k \in 1..Len(r.S.disk)}
Spec == Init /\ [][Next]_vars

Now == hist[Len(hist)]
Is(o) == hist # <<>> /\ Now.op.op = o
(* a bag holds what was written, in order, and topics do not interfere      *)
Written ==
    \A h \in 1..Len(B.hs) : B.hs[h].role = "w" /\ B.hs[h].open =>
        LET E == {k \in 1..Len(hist) : hist[k].op.op = "enter" /\ hist[k].op.h = h}
            e == CHOOSE k \in E : \A j \in E : j <= k
            ws == SelectSeq(SubSeq(hist, e, Len(hist)), LAMBDA x : x.op.op = "write" /\ x.out.res = "ok")
        IN  \A topic \in Topics3 :
              LET ts == SelectSeq(ws, LAMBDA x : x.op.topic = topic)
                  L == Load(B.hs[h].msgs, topic)
              IN  IF ts = <<>> THEN L.res = "err"
                  ELSE /\ L.ts = FlattenSeq([k \in 1..Len(ts) |-> ts[k].op.ts])
                       /\ L.position = FlattenSeq([k \in 1..Len(ts) |-> ts[k].op.t])
                       /\ L.orientation = FlattenSeq([k \in 1..Len(ts) |-> ts[k].op.r])
(* calls outside the context are errors, rejected calls change nothing      *)
Outside == Is("load") \/ Is("topics") => (~B.hs[Now.op.h].open => Now.out.res = "err")
(* cached data are those of the topic in some version of the bag            *)
OfTopic(d, f, topic) == d.res = "err" \/ \E v \in versions : v.file = f /\ Load(v.msgs, topic) = d
CacheOwn == Is("cached") =>
    \A k \in 1..Len(Now.out.allowed) : OfTopic(Now.out.allowed[k], B.hs[Now.op.h].file, Now.op.topic)
Theorems == Written /\ Outside /\ CacheOwn
(* the design with one slot per folder and slug violates this               *)
CacheShared == Is("cached") =>
    \A k \in 1..Len(Now.out.shared) : OfTopic(Now.out.shared[k], B.hs[Now.op.h].file, Now.op.topic)

Emit == Len(hist) = MaxSteps => PrintT("K " \o ToJson([ops |-> [k \in 1..Len(hist) |-> hist[k].op],
                                                       outs |-> [k \in 1..Len(hist) |-> hist[k].out]]))
=============================================================================
