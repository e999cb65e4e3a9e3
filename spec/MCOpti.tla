------------------------------- MODULE MCOpti ------------------------------
(* All arrangements of the columns of an export with one or two bodies and  *)
(* a marker, in all units and rotation orders: the imported data do not     *)
(* depend on the arrangement, nor on the unit the lengths are given in.     *)
EXTENDS OptiTrack, Json

VARIABLE e
Col(k, b, m, a) == [kind |-> k, body |-> b, mt |-> m, axis |-> a]
XYZ == <<"X", "Y", "Z">>
Perms == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
Group(k, b, m, p) == [i \in 1..3 |-> Col(k, b, m, XYZ[p[i]])]
Ang(i) == << <<2, 1>>, <<1, 1>>, <<3, -1>>, <<1, 0>> >>[i]
AxisNo(a) == CASE a = "X" -> 1 [] a = "Y" -> 2 [] a = "Z" -> 3
Value(c, u, row) ==
    IF c.mt = "Rotation" THEN Ang(((AxisNo(c.axis) + row + (IF c.body = "a" THEN 0 ELSE 1)) % 4) + 1)
    ELSE <<Factor(u) * (7 * AxisNo(c.axis) + row - (IF c.body = "a" THEN 20 ELSE 0)), 2>>

Export(u, o, cols) == [unit |-> u, order |-> o, start |-> 100, cols |-> cols,
    rows |-> [i \in 1..2 |-> [t |-> 16667 * (i - 1),
                              vals |-> [k \in 1..Len(cols) |-> Value(cols[k], u, i)]]]]
Arrange(p, q, s) ==
    LET ap == Group("Rigid Body", "a", "Position", p)
        ar == Group("Rigid Body", "a", "Rotation", q)
        bp == Group("Rigid Body", "b b", "Position", q)
        br == Group("Rigid Body", "b b", "Rotation", p)
        m == Group("Marker", "a:Marker1", "Position", p)
    IN  CASE s = 1 -> ar \o ap \o br \o bp \o m
          [] s = 2 -> m \o bp \o ar \o br \o ap
          [] s = 3 -> ap \o m \o ar \o bp \o br
Init == e \in {[u |-> u, o |-> [i \in 1..3 |-> XYZ[o[i]]], p |-> p, q |-> q, s |-> s] :
                 u \in {"Meters", "Centimeters", "Millimeters"}, o \in Perms, p \in Perms, q \in Perms, s \in 1..3}
Next == UNCHANGED e
Spec == Init /\ [][Next]_e
Id == <<1, 2, 3>>
E1 == Export(e.u, e.o, Arrange(e.p, e.q, e.s))
Theorems ==
    LET a == Import(E1) b == Import(Export("Meters", e.o, Arrange(Id, Id, 1)))
    IN  ToSet(a.bodies) = ToSet(b.bodies) /\ a.ts = b.ts
Emit == PrintT("K " \o ToJson([e |-> E1, want |-> Import(E1)]))
=============================================================================
