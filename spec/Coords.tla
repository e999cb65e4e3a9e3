------------------------------- MODULE Coords ------------------------------
(* Coordinate systems (C18).  Points are sequences of surds and angles:     *)
(*   cartesian <<x, y>> or <<x, y, z>>, polar <<r, phi>>, spherical         *)
(*   <<r, theta, phi>> (ISO: theta from the z axis, phi the azimuth).       *)
EXTENDS Surd

Dir(x, y) == IF x = SZero /\ y = SZero THEN <<SOne, SZero>> ELSE <<x, y>>
Hyp(x, y) == SSqrt(RAdd(SSq(x), SSq(y)))

CartToPolar(p) == <<Hyp(p[1], p[2]), Dir(p[1], p[2])>>
PolarToCart(p) == <<SMul(p[1], Cos(p[2])), SMul(p[1], Sin(p[2]))>>
CartToSph(p) ==
    LET rho == Hyp(p[1], p[2])
    IN  <<Hyp(rho, p[3]), Dir(p[3], rho), Dir(p[1], p[2])>>
SphToCart(p) ==
    LET rho == SMul(p[1], Sin(p[2]))
    IN  <<SMul(rho, Cos(p[3])), SMul(rho, Sin(p[3])), SMul(p[1], Cos(p[2]))>>

Systems == {"cartesian", "polar", "spherical"}
Known(from, to) == <<from, to>> \in {<<"cartesian", "polar">>, <<"polar", "cartesian">>,
                                     <<"cartesian", "spherical">>, <<"spherical", "cartesian">>}
Length(from, to) == IF "polar" \in {from, to} THEN 2 ELSE 3
Convert(from, to, p) ==
    CASE <<from, to>> = <<"cartesian", "polar">> -> CartToPolar(p)
      [] <<from, to>> = <<"polar", "cartesian">> -> PolarToCart(p)
      [] <<from, to>> = <<"cartesian", "spherical">> -> CartToSph(p)
      [] <<from, to>> = <<"spherical", "cartesian">> -> SphToCart(p)

Labels(sys, n) == CASE sys = "polar" -> <<"r", "phi">>
                    [] sys = "spherical" -> <<"r", "theta", "phi">>
                    [] sys = "cartesian" -> SubSeq(<<"x", "y", "z">>, 1, n)
AxisName(sys) == sys \o "_axis"

(* A conversion call: [from, to, n (length of the axis), pts,               *)
(*   lab (labelled?), dims, ax (0-based position of the axis in dims),      *)
(*   coords <<[n, dims]>>, sysattr ("" if absent), explicit, replace]       *)
(* from is the system in effect: the explicit one, else the attribute's.    *)
System(op) == IF op.explicit # "" THEN op.explicit ELSE op.sysattr
TransformCoords(op) ==
    LET from == System(op)
    IN  IF from = "" \/ ~Known(from, op.into) \/ op.n # Length(from, op.into)
        THEN [res |-> "err"]
        ELSE [res |-> "ok",
              pts |-> [i \in 1..Len(op.pts) |-> Convert(from, op.into, op.pts[i])],
              sysattr |-> IF op.sysattr = "" THEN "" ELSE op.into,
              dims |-> [k \in 1..Len(op.dims) |->
                          IF k = op.ax + 1 /\ op.replace THEN AxisName(op.into) ELSE op.dims[k]],
              labels |-> IF op.replace THEN Labels(op.into, op.n) ELSE <<>>,
              keep |-> [i \in 1..Len(op.coords) |->
                          ~op.replace \/ ~\E k \in 1..Len(op.coords[i].dims) :
                              op.coords[i].dims[k] = op.dims[op.ax + 1]]]
=============================================================================
