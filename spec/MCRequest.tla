----------------------------- MODULE MCRequest -----------------------------
(* All small requests, and that the verdict depends neither on the sign of  *)
(* axis numbers nor on the layout nor on whether axes are named.            *)
EXTENDS Request, TLC, Json

CONSTANTS Nds,    \* numbers of dimensions
          Sizes   \* their sizes
VARIABLE r

Shapes == UNION {[1..nd -> Sizes] : nd \in Nds}
Axes == {Def} \cup -4..3
Counts == {NoTs, Scalar, Table, 0} \cup Sizes

Transforms == [f : {"transform"}, n : {3, 4}, sh : Shapes, ax : Axes, tax : Axes,
               tsn : Counts, mov : BOOLEAN]
Labels == [f : {"labelled"}, n : {3, 4}, sh : {s \in Shapes : Len(s) <= 2}, ax : {Def, -3, -2, -1, 0, 1, 2},
           tax : {Def, 1}, dim : {0, 1, 2, Unknown}, ts : {NoTs, Off, Table, 1, 2, Unknown},
           coords : SUBSET {1, 2}, mov : {FALSE}]
Estimates == [f : {"estimate"}, what : {"linear", "quaternion", "rotation_vector"},
              sh : {s \in UNION {[1..nd -> {3, 4, 6}] : nd \in Nds} : TRUE},
              ax : {Def, -3, -1, 0, 1, 2}, tax : {Def, -2, 0, 1, 3}, tsn : {NoTs, Table, 3, 6}]
Fitted == UNION {[1..nd -> Sizes \ {1}] : nd \in {1, 2}}
          \cup {<<1, 3>>, <<1, 4>>, <<3, 1>>}
Fits == [f : {"fit"}, what : {"rotation", "transform", "icp", "arc"},
         s1 : Fitted, s2 : Fitted, ax : {Def, -3, -1, 0, 1, 2}]
        \cup [f : {"fit"}, what : {"rotation", "transform", "icp", "arc"},
         s1 : {<<2, 3>>, <<2, 5, 3>>, <<10, 3>>, <<3, 5, 2>>, <<5, 2, 3>>},
         s2 : {<<2, 5, 3>>, <<10, 3>>, <<3, 5, 2>>, <<11, 3>>}, ax : {Def, 0, 2}]
References == [f : {"reference"}, arg : {"a", "b"}, ref : {"none", "number", "unknown", "removed", "list"},
               what : {"lookup_transform", "lookup_pose", "lookup_twist", "lookup_linear_velocity",
                       "lookup_angular_velocity", "transform_points", "transform_vectors",
                       "transform_quaternions", "transform_linear_velocity",
                       "transform_angular_velocity"}]
Matrices == [f : {"matrix"}, sh : {<<3, 3>>, <<4, 4>>, <<3, 4>>, <<3>>, <<9>>, <<1, 3, 3>>, <<2, 3, 3>>, <<3, 3, 1>>}]
Options == [f : {"option"}, of : {"mode", "what", "format"},
            value : {"quaternion", "rotation_vector", "quat", "", "Quaternion", "reference_frame",
                     "moving_frame", "representation_frame", "frame", "numpy", "pandas", "xarray", "csv"}]
Namelesses == [f : {"nameless"}, what : {"points", "vectors", "quaternions", "linear", "angular",
                                         "rotation", "transform", "icp", "arc"}]

Init == \/ r \in Transforms
        \/ r \in Labels
        \/ r \in Estimates
        \/ r \in Fits
        \/ r \in References \/ r \in Matrices \/ r \in Options \/ r \in Namelesses
Next == UNCHANGED r
Spec == Init /\ [][Next]_r

Flip(a, nd) == IF a = Def THEN a ELSE IF 0 <= a /\ a < nd THEN a - nd
               ELSE IF a < 0 /\ -nd <= a THEN a + nd ELSE a
Signs == r.f \in {"transform", "estimate"} =>
    Verdict(r) = Verdict([r EXCEPT !.ax = Flip(@, Len(r.sh)), !.tax = Flip(@, Len(r.sh))])
(* with the time axis first and the spatial axis last *)
Layout == r.f = "transform" =>
    LET v == Verdict(r)
        nd == Len(r.sh)
        sp == Pos(r.ax, nd, -1)
        tm == Pos(r.tax, nd, 0)
    IN  (v.res = "ok" /\ r.tsn >= 0) =>
          LET rest == SelectSeq([k \in 1..nd |-> k], LAMBDA k : k # sp /\ k # tm)
              order == <<tm>> \o rest \o <<sp>>
              sh == [k \in 1..nd |-> r.sh[order[k]]]
          IN  Verdict([r EXCEPT !.sh = sh, !.ax = Def, !.tax = Def]) = Good(sh)
(* naming the axes *)
Named == r.f = "labelled" =>
    LET nd == Len(r.sh)
        v == Verdict(r)
        timed == r.ts > 0 \/ (r.ts = NoTs /\ nd > 1)
    IN  v.res = "ok" =>
          LET ax == IF r.dim > 0 THEN r.dim - 1 ELSE r.ax
              tax == IF ~timed THEN Def ELSE IF r.ts > 0 THEN r.ts - 1 ELSE r.tax
              tsn == IF timed THEN r.sh[Pos(tax, nd, 0)] ELSE NoTs
          IN  v = Transform([n |-> r.n, sh |-> r.sh, ax |-> ax, tax |-> tax, tsn |-> tsn, mov |-> r.mov])
Theorems == Signs /\ Layout /\ Named
Emit == PrintT("K " \o ToJson([r |-> r, v |-> Verdict(r)]))
=============================================================================
