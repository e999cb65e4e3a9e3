------------------------------- MODULE Frames ------------------------------
(* The state of the library and its transitions as pure operators.          *)
(*                                                                          *)
(* State  S = [objs, reg]                                                   *)
(*   objs : sequence of all frames ever created; S.objs[i] is a record      *)
(*          name   "" for a frame without name                              *)
(*          parent index of the parent, 0 for a root                        *)
(*          kids   indices of the children in the order of attachment       *)
(*          kind   "root" | "static" | "cont" | "disc"                      *)
(*          tr,rot samples (length 1 for static), ts timestamps (ticks)     *)
(*          h      rotation per tick of a constant-rate sequence or <<>>    *)
(*          inv    whether it was given by the inverse option (informative) *)
(*          gap    indices of invalid samples (not a number)                *)
(*   reg  : function from the registered names to indices                   *)
(*                                                                          *)
(* Every transition operator maps (S, op) to [S |-> S', res |-> "ok"/"err"].*)
EXTENDS Quat, TLC, FiniteSets, SequencesExt

EmptyState == [objs |-> <<>>, reg |-> <<>>]
Root(name) == [name |-> name, parent |-> 0, kids |-> <<>>, kind |-> "root",
               tr |-> <<VZero>>, rot |-> <<QOne>>, ts |-> <<>>, h |-> <<>>,
               inv |-> FALSE, gap |-> {}]

Ok(S) == [S |-> S, res |-> "ok"]
Err(S) == [S |-> S, res |-> "err"]

RegDel(reg, name) == [n \in DOMAIN reg \ {name} |-> reg[n]]
RegPut(reg, name, i) == (name :> i) @@ RegDel(reg, name)
IsReg(S, name) == name \in DOMAIN S.reg

---------------------------------------------------------------------------
(* A reference to a frame in a call: [k |-> "none"], [k |-> "obj", i |-> n],*)
(* [k |-> "name", n |-> s], [k |-> "bad"] (a value that is neither).        *)
(* Resolve yields the index, 0 for none and -1 for an error.                *)
Resolve(S, ref) ==
    CASE ref.k = "none" -> 0
      [] ref.k = "obj"  -> ref.i
      [] ref.k = "name" -> IF IsReg(S, ref.n) THEN S.reg[ref.n] ELSE -1
      [] OTHER          -> -1

---------------------------------------------------------------------------
(* Tree edits *)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Detach(S, i) ==
    LET p == S.objs[i].parent
    IN  IF p = 0 THEN S
        ELSE [S EXCEPT !.objs = [@ EXCEPT ![p].kids = Without(@, i),
                                          ![i].parent = 0]]

AddObj(S, rec, p) ==
    LET i == Len(S.objs) + 1
        o == [rec EXCEPT !.parent = p]
        objs1 == Append(S.objs, o)
    IN  [S EXCEPT !.objs = IF p = 0 THEN objs1
                           ELSE [objs1 EXCEPT ![p].kids = Append(@, i)]]

---------------------------------------------------------------------------
(* The transform data of a construction: record                             *)
(*   trsh, rotsh, tssh : shapes as given (<<>> = argument absent; a scalar  *)
(*                       timestamp array has shape <<-1>>)                  *)
(*   tr, rot, ts, h    : the data, meaningful when the shapes are right     *)
(*   inv, disc         : the inverse and discrete options                   *)
(*   gap               : (optional) indices of invalid samples              *)
NoTf == [trsh |-> <<>>, rotsh |-> <<>>, tssh |-> <<>>, tr |-> <<>>,
         rot |-> <<>>, ts |-> <<>>, h |-> <<>>, inv |-> FALSE, disc |-> FALSE]
Gap(tf) == IF "gap" \in DOMAIN tf THEN ToSet(tf.gap) ELSE {}
HasTr(tf) == tf.trsh # <<>>
HasRot(tf) == tf.rotsh # <<>>
HasTs(tf) == tf.tssh # <<>>

TfValidRoot(tf) == ~HasTr(tf) /\ ~HasRot(tf) /\ ~HasTs(tf) /\ ~tf.disc
TfValidChild(tf) ==
    /\ HasTs(tf) => Len(tf.tssh) = 1 /\ tf.tssh[1] >= 0
    /\ HasTr(tf) => tf.trsh = IF HasTs(tf) THEN <<tf.tssh[1], 3>> ELSE <<3>>
    /\ HasRot(tf) => tf.rotsh = IF HasTs(tf) THEN <<tf.tssh[1], 4>> ELSE <<4>>
    /\ tf.disc => HasTs(tf)

(* the frame record described by valid child data: defaults filled in and   *)
(* the inverse option resolved sample by sample                             *)
TfFrame(name, tf) ==
    LET n == IF HasTs(tf) THEN tf.tssh[1] ELSE 1
        tr0 == IF HasTr(tf) THEN tf.tr ELSE [k \in 1..n |-> VZero]
        ro0 == IF HasRot(tf) THEN [k \in 1..n |-> QPrim(tf.rot[k])]
               ELSE [k \in 1..n |-> QOne]
        h0  == IF HasRot(tf) THEN tf.h ELSE QOne
        inv(k) == PoseInv([t |-> tr0[k], r |-> ro0[k], ok |-> TRUE])
    IN  [name |-> name, parent |-> 0, kids |-> <<>>, inv |-> tf.inv, gap |-> Gap(tf),
         kind |-> IF ~HasTs(tf) THEN "static" ELSE IF tf.disc THEN "disc" ELSE "cont",
         tr |-> IF tf.inv THEN [k \in 1..n |-> inv(k).t] ELSE tr0,
         rot |-> IF tf.inv THEN [k \in 1..n |-> inv(k).r] ELSE ro0,
         ts |-> IF HasTs(tf) THEN tf.ts ELSE <<>>,
         \* (g h^k)^-1 = g^-1 (g h^-1 g^-1)^k
         h |-> IF h0 = <<>> \/ n = 0 THEN <<>>
               ELSE IF tf.inv THEN QMul(ro0[1], QMul(QInv(h0), QInv(ro0[1])))
               ELSE QPrim(h0)]

---------------------------------------------------------------------------
(* ReferenceFrame(name, parent, ...) *)
Construct(S, name, parent, tf) ==
    LET p == Resolve(S, parent)
    IN  IF p = -1 THEN Err(S)
        ELSE IF p = 0
             THEN IF TfValidRoot(tf) THEN Ok(AddObj(S, Root(name), 0)) ELSE Err(S)
             ELSE IF TfValidChild(tf) THEN Ok(AddObj(S, TfFrame(name, tf), p))
                  ELSE Err(S)

(* rf.register(update): a replaced frame is detached from its parent; the   *)
(* frame that already holds the name is left alone                          *)
Register(S, i, update) ==
    LET name == S.objs[i].name
    IN  IF name = "" THEN Err(S)
        ELSE IF ~IsReg(S, name) THEN Ok([S EXCEPT !.reg = RegPut(@, name, i)])
        ELSE IF ~update THEN Err(S)
        ELSE LET S1 == IF S.reg[name] = i THEN S ELSE Detach(S, S.reg[name])
             IN  Ok([S1 EXCEPT !.reg = RegPut(@, name, i)])

(* register_frame(...): both steps or none *)
RegisterFrame(S, name, parent, tf, update) ==
    LET c == Construct(S, name, parent, tf)
    IN  IF c.res = "err" THEN Err(S)
        ELSE LET r == Register(c.S, Len(c.S.objs), update)
             IN  IF r.res = "err" THEN Err(S) ELSE r

DeregisterName(S, name) ==
    IF IsReg(S, name) THEN Ok([S EXCEPT !.reg = RegDel(@, name)]) ELSE Err(S)

DeregisterObj(S, i) ==
    LET name == S.objs[i].name
    IN  IF IsReg(S, name) /\ S.reg[name] = i
        THEN Ok([S EXCEPT !.reg = RegDel(@, name)]) ELSE Err(S)

Clear(S) == Ok([S EXCEPT !.reg = <<>>])

---------------------------------------------------------------------------
(* Derived: chains, trees *)
RECURSIVE Chain(_, _)
Chain(S, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Chain(S, S.objs[i].parent)
RootOf(S, i) == LET c == Chain(S, i) IN c[Len(c)]
SameTree(S, i, j) == RootOf(S, i) = RootOf(S, j)

(* the frames passed when walking from a up to, and then down to b *)
UpPath(S, a, b) == LET cb == ToSet(Chain(S, b))
                   IN  SelectSeq(Chain(S, a), LAMBDA x : x \notin cb)
DownPath(S, a, b) == Reverse(UpPath(S, b, a))

RECURSIVE PreOrder(_, _, _)
PreOrder(S, i, d) ==
    LET Sub[k \in 0..Len(S.objs[i].kids)] ==
            IF k = 0 THEN <<>>
            ELSE Sub[k - 1] \o PreOrder(S, S.objs[i].kids[k], d + 1)
    IN  << <<i, d>> >> \o Sub[Len(S.objs[i].kids)]

---------------------------------------------------------------------------
(* Structural invariants of every reachable state *)
Acyclic(S) == \A i \in 1..Len(S.objs) :
    /\ S.objs[i].parent < i
    /\ S.objs[i].parent >= 0
KidsMatchParents(S) == \A i, j \in 1..Len(S.objs) :
    LET hits == {k \in 1..Len(S.objs[j].kids) : S.objs[j].kids[k] = i}
    IN  IF S.objs[i].parent = j THEN Cardinality(hits) = 1 ELSE hits = {}
KidsOrdered(S) == \A j \in 1..Len(S.objs) :
    \A k \in 1..Len(S.objs[j].kids) - 1 : S.objs[j].kids[k] < S.objs[j].kids[k + 1]
RegHoldsName(S) == \A n \in DOMAIN S.reg :
    /\ S.reg[n] \in 1..Len(S.objs)
    /\ S.objs[S.reg[n]].name = n
    /\ n # ""
WellFormed(S) == Acyclic(S) /\ KidsMatchParents(S) /\ KidsOrdered(S) /\ RegHoldsName(S)
=============================================================================
