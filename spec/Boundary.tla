------------------------------ MODULE Boundary ------------------------------
(* Boundaries of labelled regions: squared distances, the radius rule, one     *)
(* label at a time in any order, optional instances, optional thinning.        *)
EXTENDS Grid
T == INSTANCE Thinning WITH img <- <<>>, phase <- "", iters <- 0, changed <- FALSE, limit <- 0

Far == -1
(* squared distance from p to the nearest pixel of set Z, Far when more than r *)
NearestTo(Z, p, h, w, r) ==
  LET C == {q \in (Max2(1, p[1] - r)..Min2(h, p[1] + r)) \X (Max2(1, p[2] - r)..Min2(w, p[2] + r)) : q \in Z} IN
  IF C = {} THEN Far
  ELSE With({D2(p, q) : q \in C}, LAMBDA D : CHOOSE d \in D : \A e \in D : d <= e)

(* sqrt(a) + sqrt(b) <= r *)
Within(a, b, r) == LET c == r * r - a - b IN c >= 0 /\ 4 * a * b <= c * c

(* the boundary of region M with ignored region I, both sets of pixels *)
Outline(M, I, h, w, r, internal) ==
  With((1..h) \X (1..w), LAMBDA All : With(All \ (M \cup I), LAMBDA Out :
    {p \in All :
       LET inner == IF p \in Out THEN 0 ELSE NearestTo(Out, p, h, w, r)
           outer == IF internal \/ p \in M THEN 0 ELSE NearestTo(M, p, h, w, r)
       IN \E a \in {inner} : \E b \in {outer} :
            a # Far /\ b # Far /\ (a > 0 \/ b > 0) /\ Within(a, b, r)}))

(* label l of the map, as a set; planes need not come from one map *)
Regions(planes) == [k \in 1..Len(planes) |-> Px(planes[k])]

VARIABLES shape,     \* <<height, width>>
          regs,      \* region of every label (sets of pixels)
          ign,       \* indices of ignored labels
          insts,     \* sequence of [num, px]: instance regions
          least,     \* smallest instance label (0: no instance labels at all)
          opt,       \* [r, internal, thin]
          todo, edge \* labels not done, boundary per label
bdryVars == <<shape, regs, ign, insts, least, opt, todo, edge>>

Ignored == UNION {regs[k] : k \in ign}
Mine(k) == {i \in 1..Len(insts) : least > 0 /\ insts[i].num >= least * 1000 /\ insts[i].num \div 1000 = k - 1}
Raw(k) == With(Ignored, LAMBDA I :
  LET one(M) == Outline(M, I, shape[1], shape[2], opt.r, opt.internal) IN
  one(regs[k]) \cup UNION {one(insts[i].px) : i \in Mine(k)})
Done(S) == IF opt.thin THEN Px(T!Thin(FromPx(shape[1], shape[2], S))) ELSE S
EdgeOf(k) == IF k \in ign \/ regs[k] = {} THEN {} ELSE Done(Raw(k))

BdryStart(hw, rg, ig, ins, lst, op) ==
  /\ shape = hw /\ regs = rg /\ ign = ig /\ insts = ins /\ least = lst /\ opt = op
  /\ todo = 1..Len(rg) /\ edge = [k \in 1..Len(rg) |-> {}]
OneLabel(k) == /\ k \in todo
               /\ edge' = [edge EXCEPT ![k] = EdgeOf(k)]
               /\ todo' = todo \ {k}
               /\ UNCHANGED <<shape, regs, ign, insts, least, opt>>
=============================================================================
