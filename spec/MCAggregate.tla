----------------------------- MODULE MCAggregate ------------------------------
(* All small count tables for two thresholds and one or two samples.           *)
EXTENDS Aggregate
CONSTANTS MaxC, S
VARIABLE dummy
vars == <<aggVars, dummy>>
Pairs == {<<a, b>> \in (0..MaxC) \X (0..MaxC) : a <= b}
Count(r1, p1, r2, p2) == [cr |-> <<r1[1], r2[1]>>, sr |-> <<r1[2], r2[2]>>, cp |-> <<p1[1], p2[1]>>, sp |-> <<p1[2], p2[2]>>]
Tables == {Count(r1, p1, r2, p2) : r1 \in Pairs, p1 \in Pairs, r2 \in Pairs, p2 \in Pairs}
Init == /\ dummy = 0
        /\ \E ss \in [1..S -> Tables] : AggStart(ss, <<2500000, 7500000>>)
Next == AggNext /\ UNCHANGED dummy
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Unit(x) == x >= 0 /\ x <= U
InRange == stage = "done" =>
   /\ \A i \in 1..N : Unit(table[i].rec) /\ Unit(table[i].prec) /\ Unit(table[i].f)
   /\ Unit(odsF) /\ auc.lo >= 0 /\ auc.lo <= auc.hi /\ auc.hi <= U /\ ap.lo >= 0 /\ ap.lo <= ap.hi /\ ap.hi <= U
OdsDominates == stage = "done" => \A i \in 1..N : odsF >= table[i].f
BestNonEmpty == \A i \in 1..Len(chosen) : chosen[i] # {}
BestIsBest == \A s \in 1..Len(chosen) : \A i \in chosen[s] : \A j \in 1..N :
   FScore(Prec(samples[s], j), Rec(samples[s], j)) <= FScore(Prec(samples[s], i), Rec(samples[s], i)) + 4
PerfectIsOne == stage = "done" /\ (\E i \in 1..N : table[i].rec = U /\ table[i].prec = U) => ap.hi = U /\ ap.lo = U
ApBoundsByPrecision == stage = "done" => ap.hi <= MaxPrec(1..N) + 1 /\ auc.hi <= MaxPrec(1..N) + 1
TotalsAdd == stage = "samples" /\ si = Len(samples) =>
   \A i \in 1..N : total.sr[i] = IF S = 1 THEN samples[1].sr[i] ELSE samples[1].sr[i] + samples[2].sr[i]
Finishes == <>(stage = "done")
(* sanity of the arithmetic *)
ASSUME Frac(1, 3) = 3333333 /\ Frac(7, 7) = U /\ MulDiv(U, U, U) = U /\ MulDiv(5000000, 2500000, 7500000) = 1666666
=============================================================================
