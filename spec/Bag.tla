-------------------------------- MODULE Bag --------------------------------
(* C24: bag files, their readers and writers, exported and cached data.     *)
(*                                                                          *)
(* A message is [topic, type, stamp, frame, child, v]: v lists the numbers  *)
(* of the message in the order of its definition (points and vectors x, y,  *)
(* z; quaternions x, y, z, w).  Numbers and stamps are opaque integers.     *)
(* A state is                                                               *)
(*   disk  : << [file, msgs] >>         bag files, messages in the order in *)
(*                                      which they were received            *)
(*   hs    : << [role, file, open, msgs] >>  readers ("r") and writers ("w")*)
(*   own   : << [file, topic, data] >>  what was cached for which topic     *)
(*   slots : << [slot, data] >>         what the implementation keeps: one  *)
(*                                      file per folder and slug of a topic *)
(* Calls whose preconditions are not met have the outcome "skip".           *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Empty == [disk |-> <<>>, hs |-> <<>>, own |-> <<>>, slots |-> <<>>]
Skip == [res |-> "skip"]
Err == [res |-> "err"]
Ok == [res |-> "ok"]
R(B, out) == [S |-> B, out |-> out]

---------------------------------------------------------------------------
(* messages and data                                                        *)
TRANSFORM == "geometry_msgs/TransformStamped"
ODOMETRY == "nav_msgs/Odometry"
Supported == {TRANSFORM, ODOMETRY}

Sub(v, a, n) == [k \in 1..n |-> v[a + k - 1]]
Quat4(v, a) == <<v[a + 3], v[a], v[a + 1], v[a + 2]>>  \* scalar first
(* transform: translation, rotation; odometry: pose, twist *)
Pos(m) == Sub(m.v, 1, 3)
Ori(m) == Quat4(m.v, 4)
Lin(m) == Sub(m.v, 8, 3)
Ang(m) == Sub(m.v, 11, 3)
MakeTransform(topic, stamp, t, r, frame, child) ==
    [topic |-> topic, type |-> TRANSFORM, stamp |-> stamp, frame |-> frame, child |-> child,
     v |-> <<t[1], t[2], t[3], r[2], r[3], r[4], r[1]>>]

On(msgs, topic) == SelectSeq(msgs, LAMBDA m : m.topic = topic)
Topics(msgs) == {msgs[k].topic : k \in 1..Len(msgs)}
Each(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
Load(msgs, topic) ==
    LET s == On(msgs, topic)
    IN  IF s = <<>> THEN Err
        ELSE IF s[1].type \notin Supported THEN Err
        ELSE [res |-> "ok", twist |-> s[1].type = ODOMETRY,
              ts |-> Each(s, LAMBDA m : m.stamp),
              position |-> Each(s, Pos), orientation |-> Each(s, Ori),
              linear |-> IF s[1].type = ODOMETRY THEN Each(s, Lin) ELSE <<>>,
              angular |-> IF s[1].type = ODOMETRY THEN Each(s, Ang) ELSE <<>>]

---------------------------------------------------------------------------
(* files and handles                                                        *)
Files(B) == {B.disk[k].file : k \in 1..Len(B.disk)}
Content(B, f) == B.disk[CHOOSE k \in 1..Len(B.disk) : B.disk[k].file = f].msgs
Put(B, f, msgs) ==
    [B EXCEPT !.disk = SelectSeq(@, LAMBDA e : e.file # f) \o <<[file |-> f, msgs |-> msgs]>>]
Busy(B, f) == \E k \in 1..Len(B.hs) : B.hs[k].open /\ B.hs[k].file = f
BeingWritten(B, f) == \E k \in 1..Len(B.hs) : B.hs[k].open /\ B.hs[k].file = f /\ B.hs[k].role = "w"

(* another program leaves a bag with these messages                         *)
Record(B, op) ==
    IF Busy(B, op.file) THEN R(B, Skip)
    ELSE R(Put(B, op.file, SortSeq(op.msgs, LAMBDA a, b : a.recv < b.recv)), Ok)
Handle(B, op) ==
    R([B EXCEPT !.hs = Append(@, [role |-> op.role, file |-> op.file, open |-> FALSE, msgs |-> <<>>])], Ok)
Enter(B, op) ==
    LET h == B.hs[op.h]
    IN  IF h.open THEN R(B, Skip)
        ELSE IF h.role = "w"
        THEN IF Busy(B, h.file) THEN R(B, Skip)
             ELSE R([B EXCEPT !.hs[op.h].open = TRUE, !.hs[op.h].msgs = <<>>], Ok)
        ELSE IF BeingWritten(B, h.file) THEN R(B, Skip)
        ELSE IF h.file \notin Files(B) THEN R(B, Err)
        ELSE R([B EXCEPT !.hs[op.h].open = TRUE, !.hs[op.h].msgs = Content(B, h.file)], Ok)
Exit(B, op) ==
    LET h == B.hs[op.h]
        C == [B EXCEPT !.hs[op.h].open = FALSE]
    IN  IF ~h.open THEN R(B, Skip)
        ELSE IF h.role = "w" THEN R(Put(C, h.file, h.msgs), Ok)
        ELSE R(C, Ok)
(* what another program finds in a bag                                      *)
Inspect(B, op) ==
    IF Busy(B, op.file) THEN R(B, Skip)
    ELSE IF op.file \notin Files(B) THEN R(B, Err)
    ELSE R(B, [res |-> "ok", msgs |-> Content(B, op.file)])

---------------------------------------------------------------------------
(* writing: tn, rn rows of width tw, rw and n stamps in a tsd-dimensional   *)
(* array; the messages of a rejected call are not written                   *)
Consistent(op) == op.tsd = 1 /\ op.tn = op.n /\ op.rn = op.n /\ op.tw = 3 /\ op.rw = 4
Write(B, op) ==
    LET h == B.hs[op.h]
    IN  IF h.role # "w" THEN R(B, Skip)
        ELSE IF ~Consistent(op) THEN R(B, Err)
        ELSE IF ~h.open /\ op.n = 0 THEN R(B, Skip)
        ELSE IF ~h.open THEN R(B, Err)
        ELSE R([B EXCEPT !.hs[op.h].msgs = @ \o [k \in 1..op.n |->
                    MakeTransform(op.topic, op.ts[k], op.t[k], op.r[k], op.frame, op.child)]], Ok)

---------------------------------------------------------------------------
(* reading                                                                  *)
Reading(B, op) == B.hs[op.h].role = "r"
TopicsOp(B, op) ==
    LET h == B.hs[op.h]
    IN  IF ~Reading(B, op) THEN R(B, Skip)
        ELSE IF ~h.open THEN R(B, Err)
        ELSE R(B, [res |-> "ok",
                   topics |-> SetToSeq({<<h.msgs[k].topic, h.msgs[k].type>> : k \in 1..Len(h.msgs)})])
LoadOp(B, op) ==
    IF ~Reading(B, op) THEN R(B, Skip)
    ELSE IF ~B.hs[op.h].open THEN R(B, Err)
    ELSE R(B, Load(B.hs[op.h].msgs, op.topic))

(* The dataset of a topic, cached: what was cached for this topic of this   *)
(* bag before, or the current data.  "shared" is what the implementation    *)
(* keeps under the same name (a known finding if it is another topic's).    *)
OwnOf(B, f, topic) == SelectSeq(B.own, LAMBDA e : e.file = f /\ e.topic = topic)
SlotOf(B, slot) == SelectSeq(B.slots, LAMBDA e : e.slot = slot)
CachedOp(B, op) ==
    LET h == B.hs[op.h]
        slot == <<op.folder, op.slug>>
        o == OwnOf(B, h.file, op.topic)
        s == SlotOf(B, slot)
        cur == IF h.open THEN Load(h.msgs, op.topic) ELSE Err
        C == IF cur.res = "ok" /\ o = <<>>
             THEN [B EXCEPT !.own = Append(@, [file |-> h.file, topic |-> op.topic, data |-> cur])]
             ELSE B
        D == IF cur.res = "ok" /\ s = <<>>
             THEN [C EXCEPT !.slots = Append(@, [slot |-> slot, data |-> cur])]
             ELSE C
    IN  IF ~Reading(B, op) THEN R(B, Skip)
        ELSE IF ~h.open /\ s # <<>> THEN R(B, Skip)
        ELSE R(D, [res |-> "cached",
                   allowed |-> <<cur>> \o Each(o, LAMBDA e : e.data),
                   shared |-> Each(s, LAMBDA e : e.data)])

StepB(B, op) ==
    CASE op.op = "record" -> Record(B, op)
      [] op.op = "handle" -> Handle(B, op)
      [] op.op = "enter" -> Enter(B, op)
      [] op.op = "exit" -> Exit(B, op)
      [] op.op = "inspect" -> Inspect(B, op)
      [] op.op = "write" -> Write(B, op)
      [] op.op = "topics" -> TopicsOp(B, op)
      [] op.op \in {"load", "dataset", "export"} -> LoadOp(B, op)
      [] op.op = "cached" -> CachedOp(B, op)
=============================================================================
