------------------------------- MODULE MCRos -------------------------------
(* Packing and unpacking messages are inverse to each other and no component *)
(* is lost or exchanged: all payloads over a few distinct numbers.           *)
EXTENDS Ros, Json

VARIABLE m
Vals == {-1, 2, 3}
V3s == [1..3 -> Vals] \* functions with domain 1..3 are sequences
V4s == {<<a[1], a[2], a[3], d>> : a \in [1..3 -> {-1, 2}], d \in {3, 5}}
Second(kind) == IF kind = "twist" THEN {<<4, 5, 6>>, <<6, 4, 5>>}
                ELSE IF kind \in {"vector", "point"} THEN {<<0, 0, 0>>}
                ELSE V4s
Init == m \in UNION {{[kind |-> k, arg |-> [u |-> <<u[1], u[2], u[3]>>, v |-> v, frame |-> f[1],
                                           child |-> f[2], stamp |-> s]] :
                         u \in (IF k = "quaternion" THEN {[i \in 1..3 |-> 2]} ELSE V3s),
                         v \in Second(k),
                         f \in {<<"a", "b">>, <<"b", "a">>}, s \in {0, 3}} : k \in Kinds}
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
Theorems ==
    LET p == Pack(m.kind, m.arg)
    IN  /\ Unpack(m.kind, p) = PayloadOf(m.kind, m.arg)
        /\ Get(p, <<"header", "stamp">>) = m.arg.stamp
        /\ Get(p, <<"header", "frame_id">>) = m.arg.frame
        /\ \A x, y \in 1..Len(p) : p[x].f = p[y].f => x = y
Emit == PrintT("K " \o ToJson([kind |-> m.kind, arg |-> m.arg, want |-> MsgOp(m)]))
=============================================================================
