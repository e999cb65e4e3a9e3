----------------------------- MODULE OptiTrack -----------------------------
(* Import of OptiTrack exports (C21).  An export is                         *)
(*   unit  : "Meters", "Centimeters", "Millimeters" or "" (not declared)    *)
(*   order : letters of the rotation order, or <<>> (not declared)          *)
(*   start : capture start in ms                                            *)
(*   cols  : << [kind, body, mt, axis] >>: the columns after frame number   *)
(*           and time, in any order                                         *)
(*   rows  : << [t (us), vals] >>: per column <<n, d>> (a length) or an     *)
(*           angle <<m, n>> (2 atan2(n, m)), or <<>> if the sample is       *)
(*           missing                                                        *)
EXTENDS Algebra

Factor(unit) == CASE unit = "Centimeters" -> 100
                  [] unit = "Millimeters" -> 1000
                  [] OTHER -> 1
ColOf(E, body, mt, axis) ==
    CHOOSE k \in 1..Len(E.cols) : E.cols[k].kind = "Rigid Body" /\ E.cols[k].body = body
                                  /\ E.cols[k].mt = mt /\ E.cols[k].axis = axis
Bodies(E) == {E.cols[k].body : k \in {k \in 1..Len(E.cols) : E.cols[k].kind = "Rigid Body"}}

Cell(E, i, body, mt, axis) == E.rows[i].vals[ColOf(E, body, mt, axis)]
Position(E, i, body) ==
    LET c(a) == Cell(E, i, body, "Position", a)
    IN  IF \E a \in {"X", "Y", "Z"} : c(a) = <<>> THEN <<>>
        ELSE LET f == Factor(E.unit)
                 v(a) == Rat(c(a)[1], c(a)[2] * f)
                 d == Lcm(Lcm(v("X")[2], v("Y")[2]), v("Z")[2])
                 n(a) == v(a)[1] * (d \div v(a)[2])
             IN  Vec(n("X"), n("Y"), n("Z"), d)
RPY == [X |-> "r", Y |-> "p", Z |-> "y"]
Orientation(E, i, body) ==
    LET c(a) == Cell(E, i, body, "Rotation", a)
        ord == IF E.order = <<>> THEN <<"X", "Y", "Z">> ELSE E.order
        one(a) == [sh |-> <<>>, el |-> << c(a) >>]
    IN  IF \E a \in {"X", "Y", "Z"} : c(a) = <<>> THEN <<>>
        ELSE Euler([roll |-> one("X"), pitch |-> one("Y"), yaw |-> one("Z"), both |-> FALSE,
                    order |-> [k \in 1..3 |-> RPY[ord[k]]]]).el[1]

Import(E) ==
    [res |-> "ok",
     bodies |-> SetToSeq({[name |-> b,
                 pos |-> [i \in 1..Len(E.rows) |-> Position(E, i, b)],
                 rot |-> [i \in 1..Len(E.rows) |-> Orientation(E, i, b)]] : b \in Bodies(E)}),
     \* milliseconds and microseconds
     ts |-> [i \in 1..Len(E.rows) |-> << E.start + E.rows[i].t \div 1000, E.rows[i].t % 1000 >>]]
=============================================================================
