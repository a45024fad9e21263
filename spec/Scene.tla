------------------------------- MODULE Scene -------------------------------
(* Boundaries drawn from a label map and (optionally) an instance map, without *)
(* the machine of Boundary around them.                                        *)
EXTENDS Grid, Datasets
B == INSTANCE Boundary WITH shape <- <<>>, regs <- <<>>, ign <- {}, insts <- <<>>, least <- 0, opt <- 0, todo <- {}, edge <- <<>>
TT == INSTANCE Thinning WITH img <- <<>>, phase <- "", iters <- 0, changed <- FALSE, limit <- 0
Valued(img, V) == {p \in Cell(img) : img[p[1]][p[2]] \in V}
LabelsIn(img) == {img[p[1]][p[2]] : p \in Cell(img)}
(* the boundary of one label: its region's outline and those of its instances  *)
(* (instance values label * 1000 + n; least is the smallest instance label)    *)
SceneEdge(lab, ins, label, ignored, least, r, thin) ==
  IF label \in ignored THEN {} ELSE
  With(Valued(lab, {label}), LAMBDA M : With(Valued(lab, ignored), LAMBDA I :
    LET one(S) == B!Outline(S, I, Rows(lab), Cols(lab), r, FALSE)
        nums == IF ins = <<>> THEN {} ELSE {n \in LabelsIn(ins) : n >= least * 1000 /\ n \div 1000 = label}
        all == one(M) \cup UNION {one(Valued(ins, {n})) : n \in nums}
    IN IF M = {} THEN {} ELSE IF thin THEN Px(TT!Thin(FromPx(Rows(lab), Cols(lab), all))) ELSE all))
=============================================================================
