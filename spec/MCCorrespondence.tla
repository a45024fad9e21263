-------------------------- MODULE MCCorrespondence --------------------------
(* All pairs of edge maps on one small grid: every matching is built pair by  *)
(* pair next to the solver, and compared with its optimum.                    *)
EXTENDS Correspondence, TLC
CONSTANTS H, W, MaxPx
VARIABLES M, A, B, tn
vars == <<corrVars, M, A, B, tn>>
Cells == (1..H) \X (1..W)
td == 16
of2 == 16    \* outlier factor 8

Init == /\ A \in {S \in SUBSET Cells : Cardinality(S) <= MaxPx}
        /\ B \in {S \in SUBSET Cells : Cardinality(S) <= MaxPx}
        /\ tn \in {4, 7, 9}
        /\ M = {}
        /\ CorrStart(A, B, of2, tn, td, H, W)
Pick(e) == /\ Solved /\ IsMatching(M \cup {e}, elig) /\ e \notin M
           /\ \A f \in M : f[1][1] * 10 + f[1][2] < e[1][1] * 10 + e[1][2]  \* canonical order
           /\ M' = M \cup {e}
           /\ UNCHANGED <<corrVars, A, B, tn>>
First == CHOOSE p \in todo : TRUE
Next == \/ (todo # {} /\ Consider(First) /\ UNCHANGED <<M, A, B, tn>>)
        \/ \E e \in elig : Pick(e)
Spec == Init /\ [][Next]_vars

Valid == IsMatching(M, elig)
NeverBetter == Solved => Objective(M, ow) >= Optimum
(* with an outlier factor of at least 8 the optimum is a largest matching ... *)
LargestFirst == Solved => MaxPairs(elig) * ow >= -Optimum /\ -Optimum > (MaxPairs(elig) - 1) * ow
CardBound == Cardinality(M) <= MaxPairs(elig)
MaxIsMatching == M = {} => IsMatching(MaxMatching(elig), elig)
(* pixels without any partner in reach do not matter *)
Irrelevant == M = {} => Eligible(Matchable1(elig), Matchable2(elig), tn, td, H, W) = elig
Symmetric == M = {} =>
   Eligible(B, A, tn, td, H, W) = {<<e[2], e[1]>> : e \in elig}
CentiOK == \A d \in 0..50 : LET c == Centi(d) IN (2*c - 1)*(2*c - 1) <= 40000*d + (IF c = 0 THEN 1 ELSE 0) /\ 40000*d < (2*c+1)*(2*c+1)
ASSUME CentiOK
=============================================================================
