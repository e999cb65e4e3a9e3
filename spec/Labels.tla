------------------------------- MODULE Labels ------------------------------
(* Labelled arrays (C12).  A labelled array is an array of Lookup.tla with  *)
(*   rdims  : names of the axes other than the spatial one, in order        *)
(*   sdim   : name of the spatial axis                                      *)
(*   coords : <<[n, dims, vals, num]>>: name, dimensions, values in         *)
(*            row-major order (integers) and whether they are numeric       *)
(*   attrs  : << <<key, value>>, ... >>                                     *)
(* The timestamps are the index coordinate of the time dimension.           *)
EXTENDS Lookup

AttrGet(attrs, key) ==
    LET hits == SelectSeq(attrs, LAMBDA p : p[1] = key)
    IN  IF hits = <<>> THEN <<>> ELSE <<hits[1][2]>>
AttrPut(attrs, key, v) == {p \in ToSet(attrs) : p[1] # key} \cup {<<key, v>>}

What(kind) == IF kind = "vectors" THEN "representation_frame" ELSE "reference_frame"

DimIndex(dims, d) == CHOOSE k \in 1..Len(dims) : dims[k] = d

(* position of tick t between the knots of ts for nearest neighbours; 0 if  *)
(* there are two *)
Nearest(ts, t) ==
    LET dist(k) == Abs(ts[k] - t)
        best == {k \in 1..Len(ts) : \A j \in 1..Len(ts) : dist(k) <= dist(j)}
    IN  IF Cardinality(best) = 1 THEN CHOOSE k \in best : TRUE ELSE 0

(* a coordinate resampled from the ticks ts to the ticks out; unspecified   *)
(* values are <<>> *)
ResampleCoord(c, shape, p, ts, out) ==
    LET n == Len(out)
        st == Stride(shape, p)
        newshape == [shape EXCEPT ![p] = n]
    IN  [m \in 1..Prod(newshape) |->
            LET a0 == (m - 1) % st
                k == (((m - 1) \div st) % n) + 1
                b0 == (m - 1) \div (st * n)
                j == LastAt(ts, out[k])
                v(i) == c.vals[At(shape, p, b0, i, a0)]
            IN  IF ts[j] = out[k] THEN RInt(v(j))
                ELSE IF c.num
                THEN RAdd(RInt(v(j)), RMul(RInt(v(j + 1) - v(j)),
                                           Rat(out[k] - ts[j], ts[j + 1] - ts[j])))
                ELSE LET i == Nearest(ts, out[k])
                     IN  IF i = 0 THEN <<>> ELSE RInt(v(i))]

TransformLabelled(S, kind, outof, into, da) ==
    LET what == What(kind)
        named == AttrGet(da.attrs, what)
        src == IF outof.k # "none" THEN Resolve(S, outof)
               ELSE IF named = <<>> THEN -1
               ELSE Resolve(S, [k |-> "name", n |-> named[1]])
        dst == Resolve(S, into)
        R == IF src < 1 \/ dst < 1 THEN ErrRes
             ELSE TransformArray(S, kind, src, dst, da.arr)
    IN  IF R.res # "ok" THEN R
        ELSE R @@
          [warn |-> outof.k # "none" /\ named # <<>> /\ named[1] # S.objs[src].name,
           dims |-> IF R.lead THEN <<"time">> \o da.rdims ELSE da.rdims,
           attrs |-> AttrPut(SetToSeq(AttrPut(da.attrs, what, S.objs[dst].name)),
                             "representation_frame", S.objs[dst].name),
           coords |-> [i \in 1..Len(da.coords) |->
              LET c == da.coords[i]
                  tdim == IF da.arr.has THEN da.rdims[da.arr.tpos] ELSE ""
                  shape == [d \in 1..Len(c.dims) |->
                              IF c.dims[d] = da.sdim THEN (IF da.arr.q THEN 4 ELSE 3)
                              ELSE da.arr.rsh[DimIndex(da.rdims, c.dims[d])]]
              IN  [n |-> c.n, vals |->
                     IF da.arr.has /\ tdim \in ToSet(c.dims)
                     THEN ResampleCoord(c, shape, DimIndex(c.dims, tdim), da.arr.ts, R.ts)
                     ELSE [m \in 1..Len(c.vals) |-> RInt(c.vals[m])]]]]
=============================================================================
