----------------------------- MODULE MCThinning -----------------------------
(* Every image of one small size is thinned; the guarantees are invariants.  *)
EXTENDS Thinning
CONSTANTS H, W, MaxLimit
VARIABLE start
vars == <<thinVars, start>>

Limits == -1..MaxLimit
Imgs == [1..H -> [1..W -> {0, 1}]]
MCInit == /\ start \in Imgs
          /\ \E lim \in Limits : ThinStart(start, lim)
MCNext == ThinNext /\ UNCHANGED start
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)

TypeOK == phase \in {"one", "two", "done"} /\ SameShape(img, start)
OnlyDeletes == Px(img) \subseteq Px(start)
KeepsComponents == NumComp(Px(img)) = NumComp(Px(start))
FixedPoint == phase = "done" /\ limit = -1 => Pass1(img) = img /\ Pass2(img) = img
IterBound == limit >= 0 => iters <= limit
RunAgrees == phase = "done" => img = ThinRun(start, limit)
Shrinks == [][Px(img') \subseteq Px(img)]_vars
Terminates == <>(phase = "done")
=============================================================================
