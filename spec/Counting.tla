------------------------------ MODULE Counting ------------------------------
(* Counting of matched and total pixels per threshold, for one or several     *)
(* annotations of one image, as a machine that walks over thresholds and       *)
(* annotators: binarise, thin, suppress internal contours, match, tally.       *)
EXTENDS Correspondence
T == INSTANCE Thinning WITH img <- <<>>, phase <- "", iters <- 0, changed <- FALSE, limit <- 0

CONSTANT Exact   \* TRUE: matchings are optimal; FALSE: the real solver's slack on large graphs is admitted

VARIABLES job,     \* what is evaluated, see CountStart
          ti, ai,  \* current threshold, current annotator
          stage,   \* "binarise", "thin", "suppress", "match", "done"
          det,     \* detected pixels (set) at the current threshold
          recall,  \* matched ground-truth pixels so far: <<least, most>>
          gtsum,   \* ground-truth pixels so far
          hits,    \* possible sets of detections matched by some annotator
          loose,   \* a graph too large for the exact family was met
          tally    \* one record per finished threshold

countVars == <<job, ti, ai, stage, det, recall, gtsum, hits, loose, tally>>

(* job: [multi, pred, thr, gts, seg, tn, td, thin, kill, skip, noseg]          *)
(* pred and thr are on one integer scale                                      *)
Absent == \A k \in 1..Len(job.gts) : Px(job.gts[k]) = {}

ZeroTally == [crLo |-> 0, crHi |-> 0, sr |-> 0, cp |-> {0}, sp |-> 0]

CountStart(j) ==
  /\ job = j /\ ti = 1 /\ ai = 1 /\ det = {} /\ recall = <<0, 0>> /\ gtsum = 0
  /\ hits = {{}} /\ loose = FALSE
  /\ IF j.skip /\ (\A k \in 1..Len(j.gts) : Px(j.gts[k]) = {})
     THEN /\ stage = "done"
          /\ tally = [i \in 1..Len(j.thr) |-> ZeroTally]
     ELSE /\ stage = IF Len(j.thr) = 0 THEN "done" ELSE "binarise"
          /\ tally = <<>>

(* the same as an action, for machines that prepare the job first *)
CountBegin(j) ==
  /\ job' = j /\ ti' = 1 /\ ai' = 1 /\ det' = {} /\ recall' = <<0, 0>> /\ gtsum' = 0
  /\ hits' = {{}} /\ loose' = FALSE
  /\ IF j.skip /\ (\A k \in 1..Len(j.gts) : Px(j.gts[k]) = {})
     THEN /\ stage' = "done"
          /\ tally' = [i \in 1..Len(j.thr) |-> ZeroTally]
     ELSE /\ stage' = IF Len(j.thr) = 0 THEN "done" ELSE "binarise"
          /\ tally' = <<>>

Height == Rows(job.pred)
Width == Cols(job.pred)

Binarise ==
  /\ stage = "binarise" /\ stage' = IF job.thin THEN "thin" ELSE "suppress"
  /\ det' = {p \in Cell(job.pred) : job.pred[p[1]][p[2]] >= job.thr[ti]}
  /\ ai' = 1 /\ recall' = <<0, 0>> /\ gtsum' = 0 /\ hits' = {{}} /\ loose' = FALSE
  /\ UNCHANGED <<job, ti, tally>>

ThinDet ==
  /\ stage = "thin" /\ stage' = "suppress"
  /\ det' = Px(T!Thin(FromPx(Height, Width, det)))
  /\ UNCHANGED <<job, ti, ai, recall, gtsum, hits, loose, tally>>

(* detections inside the segmentation and out of reach of all ground truth     *)
Internal(D, G, seg) ==
  {p \in D : seg[p[1]][p[2]] # 0 /\ \A g \in G : ~Within(D2(p, g), job.tn, job.td, Height, Width)}

SuppressDet ==
  /\ stage = "suppress" /\ stage' = "match"
  /\ det' = IF job.kill /\ ~job.noseg /\ ~Absent
            THEN det \ Internal(det, Px(job.gts[1]), job.seg) ELSE det
  /\ UNCHANGED <<job, ti, ai, recall, gtsum, hits, loose, tally>>

(* all sets of first-map pixels matched by some optimal matching: every right  *)
(* pixel in turn extends the least objective known for each set of left pixels *)
Inf == 1000000000
RECURSIVE FamilyFrom(_, _, _, _, _)
FamilyFrom(f, rights, lefts, E, w) ==
  IF rights = {} THEN f
  ELSE LET q == CHOOSE r \in rights : TRUE
           P == {p \in lefts : <<p, q>> \in E}
       IN FamilyFrom(TLCEval([S \in SUBSET lefts |->
             MinOf({f[S]} \cup {f[S \ {p}] + Centi(D2(p, q)) - w : p \in {x \in P \cap S : f[S \ {x}] < Inf}})]),
             rights \ {q}, lefts, E, w)
Family(E, w) ==
  LET L == Matchable1(E)
  IN With(FamilyFrom([S \in SUBSET L |-> IF S = {} THEN 0 ELSE Inf], Matchable2(E), L, E, w),
          LAMBDA f : LET least == MinOf({f[S] : S \in SUBSET L}) IN {S \in SUBSET L : f[S] = least})

IsSmall(E) == Cardinality(Matchable1(E)) <= 7 /\ Cardinality(Matchable2(E)) <= 7
Deficit(E, m) == IF Exact \/ IsSmall(E) THEN 0 ELSE 3 + m \div 20

MatchOne ==
  /\ stage = "match" /\ ai <= Len(job.gts)
  /\ \E E \in {Eligible(det, Px(job.gts[ai]), job.tn, job.td, Height, Width)} :
     \E m \in {MaxPairs(E)} :
       /\ recall' = <<recall[1] + Max2(0, m - Deficit(E, m)), recall[2] + m>>
       /\ gtsum' = gtsum + Cardinality(Px(job.gts[ai]))
       /\ IF ~job.multi THEN hits' = {{}} /\ loose' = FALSE
          ELSE IF IsSmall(E) /\ ~loose
          THEN /\ hits' = {U \cup S : U \in hits, S \in Family(E, OutlierCenti(200, job.tn, job.td, Height, Width))}
               /\ loose' = FALSE
          ELSE hits' = {{}} /\ loose' = TRUE
  /\ ai' = ai + 1
  /\ UNCHANGED <<job, ti, stage, det, tally>>

(* detections any annotator could match: bounds the correct ones from above    *)
Reachable == {p \in det : \E k \in 1..Len(job.gts) : \E g \in Px(job.gts[k]) :
                Within(D2(p, g), job.tn, job.td, Height, Width)}

Tally ==
  /\ stage = "match" /\ ai > Len(job.gts)
  /\ tally' = Append(tally,
       [crLo |-> recall[1], crHi |-> recall[2], sr |-> gtsum,
        cp |-> IF ~job.multi THEN recall[1]..recall[2]
               ELSE IF loose THEN (recall[1] \div Len(job.gts))..Min2(recall[2], Cardinality(Reachable))
               ELSE {Cardinality(U) : U \in hits},
        sp |-> Cardinality(det)])
  /\ IF ti = Len(job.thr) THEN stage' = "done" /\ ti' = ti ELSE stage' = "binarise" /\ ti' = ti + 1
  /\ UNCHANGED <<job, ai, det, recall, gtsum, hits, loose>>

CountNext == Binarise \/ ThinDet \/ SuppressDet \/ MatchOne \/ Tally
=============================================================================
