------------------------------ MODULE MCCounting -----------------------------
(* All small predictions, annotations and segmentations under all options.    *)
EXTENDS Counting
CONSTANTS H, W, MaxV, Anns
cUn == UNCHANGED corrVars
vars == <<countVars, corrVars>>
Imgs(n) == [1..H -> [1..W -> 0..n]]
Segs == {[y \in 1..H |-> [x \in 1..W |-> 1]], [y \in 1..H |-> [x \in 1..W |-> IF x = W THEN 0 ELSE 1]]}
Init ==
  /\ elig = {} /\ todo = {} /\ right = {} /\ ow = 0 /\ best = <<>>
  /\ \E pred \in Imgs(MaxV) : \E gts \in [1..Anns -> Imgs(1)] :
     \E seg \in Segs : \E opt \in {<<1,0,0>>, <<0,0,0>>, <<0,1,0>>, <<0,1,1>>} : \E tn \in {4, 7} :
       /\ (Anns = 1 \/ (opt[2] = 0 /\ seg[1][W] = 1))
       /\ (opt[2] = 1 \/ seg[1][W] = 1)
       /\ CountStart([multi |-> Anns > 1, pred |-> pred, thr |-> [i \in 1..MaxV |-> i], gts |-> gts, seg |-> seg,
                   tn |-> tn, td |-> 16, thin |-> opt[1] = 1, kill |-> opt[2] = 1, skip |-> opt[3] = 1, noseg |-> FALSE])
Next == CountNext /\ cUn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllCounted == stage = "done" => Len(tally) = Len(job.thr)
Bounded == \A i \in 1..Len(tally) : LET t == tally[i] IN
   /\ t.crLo = t.crHi /\ t.crHi <= t.sr /\ t.cp # {}
   /\ \A c \in t.cp : c <= t.sp /\ (Anns = 1 => c = t.crHi) /\ (t.sr = 0 => c = 0)
(* without thinning fewer pixels are detected at higher thresholds *)
Monotone == ~job.thin => \A i, j \in 1..Len(tally) : i < j => tally[i].sp >= tally[j].sp
(* suppressing internal contours never costs a match *)
MatchSurvives == stage = "suppress" /\ job.kill /\ ~Absent =>
   LET E1 == Eligible(det, Px(job.gts[1]), job.tn, job.td, H, W)
       D == det \ Internal(det, Px(job.gts[1]), job.seg)
   IN Eligible(D, Px(job.gts[1]), job.tn, job.td, H, W) = E1
(* nothing outside the segmentation is suppressed *)
OutsideKept == stage = "suppress" /\ job.kill => \A p \in Internal(det, Px(job.gts[1]), job.seg) : job.seg[p[1]][p[2]] = 1
(* swapping annotators changes nothing; an empty annotator adds nothing *)
FamilyIsMatched == stage = "match" /\ ai <= Len(job.gts) =>
   LET E == Eligible(det, Px(job.gts[ai]), job.tn, job.td, H, W)
   IN \A S \in Family(E, 80000) : Cardinality(S) = MaxPairs(E)
UnionAtLeastBest == stage = "match" /\ ai > 1 => \A U \in hits : job.multi => Cardinality(U) <= recall[2]
SkipsAbsent == job.skip /\ Absent => tally = [i \in 1..Len(job.thr) |-> ZeroTally]
Finishes == <>(stage = "done")
=============================================================================
