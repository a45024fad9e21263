----------------------------- MODULE ConvertCity -----------------------------
(* Conversion of a Cityscapes tree: every training and validation image gets   *)
(* its edge files and training-label map, every split its list.  Workers take   *)
(* the pieces in any order.                                                     *)
EXTENDS Scene
(* tree: sequence of [split, city, name, lab, inst]                             *)
(* run:  [proc, is, ext, half, tr, rr, serial]                                  *)
VARIABLES tree, runs, at, pieces, files
convVars == <<tree, runs, at, pieces, files>>
Variants(im, run) == CASE im.split = "train" -> {"train"}
                       [] im.split = "val" -> {"raw", "thin"} \cup (IF run.half THEN {"half_raw", "half_thin"} ELSE {})
                       [] OTHER -> {}
Todo(run) == {<<i, v>> : i \in {j \in 1..Len(tree) : tree[j].split # "test"}, v \in {"ids"}}
             \cup UNION {{<<i, v>> : v \in Variants(tree[i], run)} : i \in 1..Len(tree)}
Suffix(v, run) == CASE v = "ids" -> "_gtFine_labelTrainIds.png"
                    [] v = "train" -> "_gtProc_" \o (IF run.is THEN "isedge." ELSE "edge.") \o run.ext
                    [] OTHER -> "_gtProc_" \o v \o (IF run.is THEN "_isedge." ELSE "_edge.") \o run.ext
PathOf(im, v, run) == run.proc \o "/" \o im.split \o "/" \o im.city \o "/" \o im.name \o Suffix(v, run)
HalfUp(n) == (n + 1) \div 2
(* every second row and column of the finished boundaries                       *)
Subsample(img) == With(<<HalfUp(Rows(img)), HalfUp(Cols(img))>>, LAMBDA s :
  [y \in 1..s[1] |-> TLCEval([x \in 1..s[2] |-> img[((y - 1) * Rows(img)) \div s[1] + 1][((x - 1) * Cols(img)) \div s[2] + 1]])])
Smaller(img) == IF img = <<>> THEN img ELSE Resample(img, HalfUp(Rows(img)), HalfUp(Cols(img)))
Trained(lab) == {k \in 1..19 : \E p \in Cell(lab) : lab[p[1]][p[2]] = CityscapesTable[k][1]}
Pack(lab, ins, r, thin) ==
  With([k \in Trained(lab) |-> SceneEdge(lab, ins, CityscapesTable[k][1], {2, 3}, 24, r, thin)], LAMBDA f :
    [y \in 1..Rows(lab) |-> TLCEval([x \in 1..Cols(lab) |-> SumOver(DOMAIN f, [k \in DOMAIN f |-> IF <<y, x>> \in f[k] THEN 2 ^ (k - 1) ELSE 0])])])
TrainMap(lab) == MapImg(lab, LAMBDA v : IF \E k \in 1..19 : CityscapesTable[k][1] = v THEN CityscapesTable[CHOOSE k \in 1..19 : CityscapesTable[k][1] = v][2] ELSE 255)
Content(im, v, run) ==
  LET ins == IF run.is THEN im.inst ELSE <<>> IN
  CASE v = "ids" -> TrainMap(im.lab)
    [] v = "train" -> Pack(im.lab, ins, run.tr, FALSE)
    [] v = "raw" -> Pack(im.lab, ins, run.rr, FALSE)
    [] v = "thin" -> Pack(im.lab, ins, 1, TRUE)
    [] v = "half_raw" -> Subsample(Pack(im.lab, ins, run.rr, FALSE))
    [] OTHER -> With(Smaller(im.lab), LAMBDA s : Pack(s, Smaller(ins), 1, TRUE))
Listed(split) == {tree[i].city \o "/" \o tree[i].name : i \in {j \in 1..Len(tree) : tree[j].split = split}}

ConvStart(t, rs) == tree = t /\ runs = rs /\ at = 0 /\ pieces = {} /\ files = [p \in {} |-> <<>>]
BeginRun == /\ at < Len(runs) /\ pieces = {} /\ at' = at + 1
            /\ pieces' = Todo(runs[at + 1]) /\ UNCHANGED <<tree, runs, files>>
Piece(t) == /\ t \in pieces /\ pieces' = pieces \ {t}
            /\ files' = (PathOf(tree[t[1]], t[2], runs[at]) :> Content(tree[t[1]], t[2], runs[at])) @@ files
            /\ UNCHANGED <<tree, runs, at>>
Finished == at = Len(runs) /\ pieces = {}
=============================================================================
