------------------------------ MODULE MCCoords -----------------------------
(* Conversions are mutually inverse: all points with small rational         *)
(* coordinates and all radii with angles over a set of directions.          *)
EXTENDS Coords, TLC, Json

CONSTANTS M, D
VARIABLE p
Ints == -M..M
Num == {Rat(n, d) : n \in Ints, d \in 1..D}
Dirs == {<<SInt(c), SInt(s)>> : c \in Ints, s \in Ints} \ {<<SZero, SZero>>}
Radii == {SSqrt(RInt(n)) : n \in 1..M * M} \cup {SRat(Rat(n, d)) : n \in 1..M, d \in 1..D}

Init == \/ p \in {[k |-> "polar", p |-> <<SRat(x), SRat(y)>>] : x \in Num, y \in Num}
        \/ p \in {[k |-> "sph", p |-> <<SRat(x), SRat(y), SRat(z)>>] :
                    x \in Num, y \in Num, z \in {RInt(n) : n \in Ints}}
        \/ p \in {[k |-> "pcart", p |-> <<r, a>>] : r \in Radii, a \in Dirs}
        \/ p \in {[k |-> "scart", p |-> <<r, t, a>>] :
                    r \in Radii, a \in Dirs,
                    t \in {d \in Dirs : Sin(d)[1] > 0}}
Next == UNCHANGED p
Spec == Init /\ [][Next]_p

Theorems ==
    CASE p.k = "polar" ->
           LET q == CartToPolar(p.p) IN PolarToCart(q) = p.p /\ q[1][1] >= 0
      [] p.k = "sph" ->
           LET q == CartToSph(p.p) IN SphToCart(q) = p.p /\ q[1][1] >= 0 /\ Sin(q[2])[1] >= 0
      [] p.k = "pcart" ->
           LET q == CartToPolar(PolarToCart(p.p))
           IN  q[1] = p.p[1] /\ SameAngle(q[2], p.p[2])
      [] p.k = "scart" ->
           LET q == CartToSph(SphToCart(p.p))
           IN  q[1] = p.p[1] /\ SameAngle(q[2], p.p[2]) /\ SameAngle(q[3], p.p[3])
\* every conversion is replayed on the library
Emit == PrintT("K " \o ToJson([k |-> p.k, p |-> p.p,
    q |-> CASE p.k = "polar" -> CartToPolar(p.p) [] p.k = "sph" -> CartToSph(p.p)
            [] p.k = "pcart" -> PolarToCart(p.p) [] p.k = "scart" -> SphToCart(p.p)]))
=============================================================================
