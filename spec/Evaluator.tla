------------------------------ MODULE Evaluator ------------------------------
(* The evaluators as configured objects: constructor options, sample list,     *)
(* protocol settings, and what a run evaluates.  A run is a table              *)
(*   category -> sequence over the sample list of counts                        *)
(* where the counts follow from which ground-truth file, which plane and which  *)
(* prediction the settings select in a synthetic world of files (below).        *)
EXTENDS Grid
T == INSTANCE Thinning WITH img <- <<>>, phase <- "", iters <- 0, changed <- FALSE, limit <- 0

(* ------------------------------------------------------------- the settings *)
Kinds == {"bsds", "sbd", "reanno", "cs", "half", "otf"}
Multi(k) == k # "bsds"
CsLike(k) == k \in {"cs", "half", "otf"}
NumCats(k) == IF CsLike(k) THEN 19 ELSE 20
(* defaults of the configuration call: scale in percent, tolerance in 1/10000 *)
Defaults(k) == [mode |-> "none", scale |-> IF k = "cs" \/ k = "otf" THEN 50 ELSE 100, thin |-> k = "bsds", nms |-> FALSE, sens |-> TRUE,
                dist |-> CASE k = "sbd" -> 200 [] CsLike(k) -> 35 [] OTHER -> 75, skip |-> FALSE, kill |-> FALSE]
Args(k, op) == [f \in DOMAIN Defaults(k) |-> IF \E i \in 1..Len(op.given) : op.given[i] = f THEN op[f] ELSE Defaults(k)[f]]
GoodScale(v) == v > 0 /\ v <= 100
Refused(k, a) == \/ k # "half" /\ ~GoodScale(a.scale)
                 \/ CsLike(k) /\ a.mode = "pre-seal" /\ a.sens
Settings(k, a) ==
  LET base == [scale |-> IF k = "half" THEN 100 ELSE a.scale, thin |-> a.thin, nms |-> a.nms]
      mk(d, kl, sk, se) == [scale |-> base.scale, thin |-> base.thin, nms |-> base.nms, dist |-> d, kill |-> kl, skip |-> sk, sens |-> se]
  IN CASE k = "bsds" -> mk(a.dist, FALSE, FALSE, FALSE)
       [] k = "reanno" -> mk(a.dist, FALSE, FALSE, a.sens)
       [] a.mode = "pre-seal" -> mk(200, TRUE, TRUE, FALSE)
       [] a.mode = "post-seal" -> mk(IF k = "sbd" THEN 200 ELSE a.dist, ~a.sens, ~a.sens, a.sens)
       [] OTHER -> mk(a.dist, a.kill, a.skip, a.sens)
Unset == [scale |-> 0, thin |-> FALSE, nms |-> FALSE, dist |-> 0, kill |-> FALSE, skip |-> FALSE, sens |-> FALSE]

(* ------------------------------------------------------- the world of files *)
(* samples 1..3 have everything, 4 lacks its prediction, 5 its ground truth    *)
SplitList(k, sp) == IF sp = "val" \/ k = "bsds" THEN <<1, 2, 3>> ELSE <<3, 1>>
FileList(f) == CASE f = "a" -> <<2>> [] f = "b" -> <<3, 2, 1>> [] f = "c" -> <<1, 4>> [] OTHER -> <<>>   \* "empty", "missing"
HasGt(s) == s # 5
HasPred(s) == s # 4
B(b) == IF b THEN 1 ELSE 0
(* ground-truth variant: instance-insensitive/sensitive, raw/thin, file family *)
Variant(k, thin, sens) == 2 * B(thin) + B(sens) + 4 * B(k \in {"half", "reanno"})
Shift(e) == 11 * B(e.split = "test" /\ (CsLike(e.kind) \/ e.kind = "bsds")) + 23 * e.gd
Empty(s, c) == (s + c) % 4 = 0
GtSize(e, s, c, sens) == IF Multi(e.kind) /\ Empty(s, c) THEN 0 ELSE 20 + ((Variant(e.kind, e.thin, sens) * 5 + s + 3 * c + Shift(e)) % 67)
(* a prediction has detections on true pixels, and others that match nothing     *)
PredHits(e, s, c) == 2 + ((s + 2 * c + e.pf) % 4)
PredMisses(e, s, c) == (3 * s + c + 2 * e.pf) % 11
SegCat(s) == s + 1      \* the one category whose region the segmentation of s contains
(* a block of three lines, only the middle one in full strength, at both scales *)
Line3 == [y \in 1..7 |-> [x \in 1..13 |-> IF y \in 3..5 /\ x \in 3..11 THEN 1 ELSE 0]]
Line1 == [y \in 1..5 |-> [x \in 1..9 |-> IF y = 3 /\ x \in 3..7 THEN 1 ELSE 0]]
Line9 == [y \in 1..5 |-> [x \in 1..13 |-> IF y = 3 /\ x \in 3..11 THEN 1 ELSE 0]]
Thin9 == Cardinality(Px(T!Thin(Line9)))
Thin3 == Cardinality(Px(T!Thin(Line3)))
Thin1 == Cardinality(Px(T!Thin(Line1)))
(* above strength 200/255 (p.hi) only the middle line is left                   *)
Hi(p) == "hi" \in DOMAIN p /\ p.hi
Block(p) == IF p.scale = 100 THEN (IF Hi(p) THEN (IF p.thin THEN Thin9 ELSE 9) ELSE IF p.thin THEN Thin3 ELSE 27) ELSE (IF p.thin THEN Thin1 ELSE 5)
(* the first kind ignores the scale, the half-scale kind has half-size ground truth *)
Effective(e, p) == IF e.kind = "bsds" THEN [p EXCEPT !.scale = 100] ELSE IF e.kind = "half" THEN [p EXCEPT !.scale = 50] ELSE p
(* pairs two and four pixels apart (image diagonal 160): matched from tolerances of 0.0125 and 0.025 on *)
PairHits(p) == B(p.dist >= 125) + B(p.dist >= 250)
Corner(k) == B(k \notin {"sbd", "reanno"})    \* a detection in the outermost pixels
(* counts: pairs are <<least, most>>.  Suppression of non-maxima smooths first   *)
(* and so leaves of isolated pixels nothing, of the block at most its pixels.    *)
Zero == [cr |-> <<0, 0>>, sr |-> 0, cp |-> <<0, 0>>, sp |-> <<0, 0>>]
Exactly(n) == <<n, n>>
Twice(t) == <<2 * t[1], 2 * t[2]>>
Cnt(hit, gt, det, p) == IF p.nms THEN [cr |-> <<0, 0>>, sr |-> gt, cp |-> <<0, 0>>, sp |-> <<0, 30>>]
                        ELSE [cr |-> hit, sr |-> gt, cp |-> hit, sp |-> Exactly(det)]
CountsGrid(e, q, s, c) ==
  LET p == Effective(e, q)
      m == PredHits(e, s, c)
      g == GtSize(e, s, c, p.sens)
      inner == IF p.kill /\ c = SegCat(s) /\ g > 0 THEN 0 ELSE 3
      det == m + 2 + PredMisses(e, s, c) + Corner(e.kind) + inner + Block(p)
  IN IF ~Multi(e.kind)
     THEN LET r == Cnt(Exactly(m + PairHits(p)), 2 * (g + 7) - 5, det, p) IN [r EXCEPT !.cr = Twice(@)]
     ELSE IF g = 0 THEN (IF p.skip THEN Zero ELSE Cnt(<<0, 0>>, 0, det, p))
     ELSE Cnt(Exactly(m + PairHits(p)), g + 7, det, p)
(* on-the-fly ground truth: squares of label 24 (category 12) and 26 (category 14), *)
(* each of two instances side by side; long edges make larger matchings, which are  *)
(* not always complete (see Correspondence) once several pixels are within reach    *)
Side(e, s, c) == 40 + 2 * ((s + (c \div 14) + B(e.split = "test")) % 4)
Ring(n, r) == IF r = 1 THEN 4 * (n - 1) + 4 * n ELSE 4 * (n - 1) + 4 * (n - 3) + 8 * n + 4
Divide(n, r) == IF r = 1 THEN 2 * (n - 2) ELSE 4 * (n - 4)
CountsOtf(e, p, s, c) ==
  LET r == IF e.thin THEN 1 ELSE 2
      n == IF p.scale = 100 THEN Side(e, s, c) ELSE Side(e, s, c) \div 2
      a == PredHits(e, s, c)
      there == c = 12 \/ c = 14
      near == ~(r = 1 /\ p.scale = 100 /\ p.dist < 63)      \* detections one pixel inside the ring reach it
      slack == IF p.dist * (IF p.scale = 100 THEN 160 ELSE 80) < 10000 THEN 0 ELSE 1
      hit == IF near THEN <<a - slack, a>> ELSE <<0, 0>>
      det == (IF p.kill /\ there /\ ~near THEN 0 ELSE a) + PredMisses(e, s, c) + (IF p.kill /\ there THEN 0 ELSE 1) + 1 + Block(p)
  IN IF ~there THEN (IF p.skip THEN Zero ELSE Cnt(<<0, 0>>, 0, det, p))
     ELSE Cnt(hit, Ring(n, r) + (IF p.sens THEN Divide(n, r) ELSE 0), det, p)
Counts(e, p, s, c) == IF e.kind = "otf" THEN CountsOtf(e, p, s, c) ELSE CountsGrid(e, p, s, c)

(* ------------------------------------------------------------- the evaluator *)
(* names = <<>>: no samples known *)
Made(opt) == [kind |-> opt.kind, thin |-> opt.thin, split |-> opt.split, gd |-> opt.gd, pf |-> opt.pf, bare |-> opt.bare,
              names |-> IF opt.bare THEN <<>> ELSE SplitList(opt.kind, opt.split), params |-> Unset]
MadeOK(opt) == opt.split \in {"val", "test"}
(* which list a naming call selects; <<>>: refused *)
Chosen(e, op) == IF op.how = "list" THEN op.list
                 ELSE IF op.how = "both" THEN op.list
                 ELSE IF op.how = "file" THEN FileList(op.file)
                 ELSE IF op.how = "tuple" THEN <<>>
                 ELSE IF e.bare THEN <<>> ELSE SplitList(e.kind, e.split)
CatsOf(e, op) == CASE op.how = "none" -> [i \in 1..NumCats(e.kind) |-> i]
                   [] op.how = "tuple" -> <<>>
                   [] OTHER -> op.list
BadCats(e, op) == Multi(e.kind) /\ (CatsOf(e, op) = <<>> \/ \E i \in 1..Len(CatsOf(e, op)) : CatsOf(e, op)[i] \notin 1..NumCats(e.kind))
(* with predictions of another folder layout or suffix *)
View(e, op) == IF e.kind = "bsds" THEN [e EXCEPT !.pf = B(op.flat)] ELSE e
RunRefused(e, op) ==
  \/ e.params = Unset \/ e.names = <<>> \/ BadCats(e, op)
  \/ \E i \in 1..Len(e.names) : ~HasGt(e.names[i]) \/ ~HasPred(e.names[i])
  \/ e.kind = "bsds" /\ e.bare
Table(e, op) ==
  [i \in 1..Len(IF Multi(e.kind) THEN CatsOf(e, op) ELSE <<0>>) |->
     [cat |-> IF Multi(e.kind) THEN CatsOf(e, op)[i] ELSE 0,
      lines |-> [j \in 1..Len(e.names) |->
         [name |-> e.names[j], n |-> Counts(View(e, op), e.params, e.names[j], IF Multi(e.kind) THEN CatsOf(e, op)[i] ELSE 0)]]]]
Apply(e, op) ==
  CASE op.o = "configure" -> IF Refused(e.kind, Args(e.kind, op)) THEN e ELSE [e EXCEPT !.params = Settings(e.kind, Args(e.kind, op))]
    [] op.o = "names" -> IF Chosen(e, op) = <<>> THEN e ELSE [e EXCEPT !.names = Chosen(e, op)]
    [] op.o = "suffix" -> [e EXCEPT !.pf = op.pf]
    [] OTHER -> e
Fails(e, op) ==
  CASE op.o = "configure" -> Refused(e.kind, Args(e.kind, op))
    [] op.o = "names" -> Chosen(e, op) = <<>>
    [] op.o = "run" -> RunRefused(e, op)
    [] op.o = "params" -> e.params = Unset
    [] OTHER -> FALSE
Sensible(e, op) ==
  CASE op.o = "suffix" -> CsLike(e.kind)
    [] op.o = "names" -> (e.kind = "bsds" => op.how \in {"list", "default", "tuple", "empty"})
      
    [] OTHER -> TRUE
=============================================================================
