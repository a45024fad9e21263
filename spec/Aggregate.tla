------------------------------ MODULE Aggregate ------------------------------
(* From per-sample counts to the dataset's scores.  The machine takes the     *)
(* samples one after the other, then fills the threshold table, scans the     *)
(* interpolated operating points, and integrates the curve.                   *)
EXTENDS Fixed, TLC

VARIABLES samples,  \* sequence of [cr, sr, cp, sp], one integer per threshold each
          thr,      \* thresholds in 1/U
          si,       \* samples taken so far
          total,    \* [cr, sr, cp, sp] summed
          chosen,   \* per sample: admissible best threshold indices
          table,    \* per threshold [rec, prec, f]
          odsF,     \* best F over the scanned operating points
          auc, ap,  \* [lo, hi] in 1/U
          stage
aggVars == <<samples, thr, si, total, chosen, table, odsF, auc, ap, stage>>

N == Len(thr)
NoCounts == [cr |-> [i \in 1..N |-> 0], sr |-> [i \in 1..N |-> 0],
             cp |-> [i \in 1..N |-> 0], sp |-> [i \in 1..N |-> 0]]
AddV(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
AddCounts(a, b) == [cr |-> AddV(a.cr, b.cr), sr |-> AddV(a.sr, b.sr),
                    cp |-> AddV(a.cp, b.cp), sp |-> AddV(a.sp, b.sp)]
Rec(c, i) == Rate(c.cr[i], c.sr[i])
Prec(c, i) == Rate(c.cp[i], c.sp[i])

AggStart(ss, tt) ==
  /\ samples = ss /\ thr = tt /\ si = 0 /\ chosen = <<>> /\ table = <<>>
  /\ total = [cr |-> [i \in 1..Len(tt) |-> 0], sr |-> [i \in 1..Len(tt) |-> 0],
              cp |-> [i \in 1..Len(tt) |-> 0], sp |-> [i \in 1..Len(tt) |-> 0]]
  /\ odsF = 0 /\ auc = [lo |-> 0, hi |-> 0] /\ ap = [lo |-> 0, hi |-> 0]
  /\ stage = "samples"

(* ------------------------------------------------ best threshold of a sample *)
(* F = 2ac / (ad + cb) with recall a/b and precision c/d, compared exactly     *)
Den(b) == IF b = 0 THEN 1 ELSE b
FNum(c, i) == c.cr[i] * c.cp[i]
FDen(c, i) == LET x == c.cr[i] * Den(c.sp[i]) + c.cp[i] * Den(c.sr[i]) IN IF x = 0 THEN 1 ELSE x
ExactOK(c) == \A i \in 1..N : c.sr[i] <= 120 /\ c.sp[i] <= 120
FLeq(c, i, j) == FNum(c, i) * FDen(c, j) <= FNum(c, j) * FDen(c, i)
(* equal rates, possibly with recall and precision exchanged: equal F for sure *)
SameRate(a, b, c, d) == FracLeq(a, Den(b), c, Den(d)) /\ FracLeq(c, Den(d), a, Den(b))
SamePoint(c, i, j) ==
  \/ SameRate(c.cr[i], c.sr[i], c.cr[j], c.sr[j]) /\ SameRate(c.cp[i], c.sp[i], c.cp[j], c.sp[j])
  \/ SameRate(c.cr[i], c.sr[i], c.cp[j], c.sp[j]) /\ SameRate(c.cp[i], c.sp[i], c.cr[j], c.sr[j])
Best(c) ==
  IF ExactOK(c)
  THEN LET B == {i \in 1..N : \A j \in 1..N : FLeq(c, j, i)}
       IN {i \in B : ~\E j \in B : j < i /\ SamePoint(c, i, j)}
  ELSE LET f == TLCEval([i \in 1..N |-> FScore(Prec(c, i), Rec(c, i))])
           B == {i \in 1..N : \A j \in 1..N : f[j] <= f[i] + 10}
       IN {i \in B : ~\E j \in B : j < i /\ SamePoint(c, i, j)}

TakeSample ==
  /\ stage = "samples" /\ si < Len(samples)
  /\ si' = si + 1
  /\ total' = AddCounts(total, samples[si + 1])
  /\ chosen' = Append(chosen, Best(samples[si + 1]))
  /\ UNCHANGED <<samples, thr, table, odsF, auc, ap, stage>>

FillTable ==
  /\ stage = "samples" /\ si = Len(samples)
  /\ table' = [i \in 1..N |-> [rec |-> Rec(total, i), prec |-> Prec(total, i),
                               f |-> FScore(Prec(total, i), Rec(total, i))]]
  /\ stage' = "scan" /\ si' = 1
  /\ odsF' = table'[1].f
  /\ UNCHANGED <<samples, thr, total, chosen, auc, ap>>

(* ------------------------------------------ operating points between i-1 and i *)
Mix(x, y, k) == (y * k + x * (100 - k)) \div 100
Point(i, k) == [t |-> Mix(thr[i - 1], thr[i], k),
                rec |-> Mix(table[i - 1].rec, table[i].rec, k),
                prec |-> Mix(table[i - 1].prec, table[i].prec, k)]
PointF(i, k) == FScore(Mix(table[i - 1].prec, table[i].prec, k), Mix(table[i - 1].rec, table[i].rec, k))

SetMax(S) == CHOOSE m \in S : \A n \in S : n <= m

ScanInterval ==
  /\ stage = "scan" /\ si < N
  /\ si' = si + 1
  /\ odsF' = SetMax({odsF} \cup {PointF(si + 1, k) : k \in 0..100})
  /\ UNCHANGED <<samples, thr, total, chosen, table, auc, ap, stage>>

(* ----------------------------------------------------------------- areas *)
(* exact position of recall a/b relative to the level k/100 *)
AtLeast(i, k) == 100 * total.cr[i] >= k * Den(total.sr[i])
AtMost(i, k) == 100 * total.cr[i] <= k * Den(total.sr[i])
RecLess(i, j) == ~FracLeq(total.cr[j], Den(total.sr[j]), total.cr[i], Den(total.sr[i]))
RecSame(i, j) == SameRate(total.cr[i], total.sr[i], total.cr[j], total.sr[j])
Knots == {i \in 1..N : ~\E j \in 1..(i - 1) : RecSame(i, j)}

(* interpolated precision at recall k/100 as <<low, high>>                     *)
Line(l, r, k) ==
  LET x == k * (U \div 100) - table[l].rec
      w == table[r].rec - table[l].rec
      d == table[r].prec - table[l].prec
  IN IF w <= 0 \/ x < 0 \/ x > w THEN table[l].prec
     ELSE IF d >= 0 THEN table[l].prec + MulDiv(d, x, w) ELSE table[l].prec - MulDiv(-d, x, w)
Interp(K, k) ==
  LET L == {i \in K : AtMost(i, k)}
      R == {i \in K : AtLeast(i, k)}
  IN IF L = {} \/ R = {} THEN <<0, 0>>
     ELSE LET l == CHOOSE i \in L : \A j \in L : ~RecLess(i, j)
              r == CHOOSE i \in R : \A j \in R : ~RecLess(j, i)
          IN IF l # r THEN LET v == Line(l, r, k) IN <<v, v>>
             \* exactly at a knot; at the ends rounding decides whether it is inside
             ELSE IF k > 0 /\ (L = {l} \/ R = {r}) THEN <<0, table[l].prec>>
             ELSE <<table[l].prec, table[l].prec>>

(* best precision at recall k/100 or more; a recall exactly on an inner level   *)
(* may be seen on either side of it                                            *)
MaxPrec(S) == IF S = {} THEN 0 ELSE SetMax({table[i].prec : i \in S})
ApHi(k) == MaxPrec({i \in 1..N : AtLeast(i, k)})
ApLo(k) == MaxPrec({i \in 1..N : AtLeast(i, k) /\ (k \in {0, 100} \/ ~AtMost(i, k))})

RECURSIVE Sum(_, _, _)
Sum(f, a, b) == IF a > b THEN 0 ELSE f[a] + Sum(f, a + 1, b)

Areas ==
  /\ stage = "scan" /\ si >= N
  /\ stage' = "done"
  /\ \E K \in {Knots} : \E f \in {TLCEval([k \in 0..99 |-> TLCEval(Interp(K, k))])} :
       auc' = IF Cardinality(K) < 2 THEN [lo |-> 0, hi |-> 0]
              ELSE [lo |-> Sum([k \in 0..99 |-> f[k][1]], 0, 99) \div 100,
                    hi |-> Sum([k \in 0..99 |-> f[k][2]], 0, 99) \div 100]
  /\ ap' = [lo |-> Sum(TLCEval([k \in 0..100 |-> ApLo(k)]), 0, 100) \div 101,
            hi |-> Sum(TLCEval([k \in 0..100 |-> ApHi(k)]), 0, 100) \div 101]
  /\ UNCHANGED <<samples, thr, si, total, chosen, table, odsF>>

AggNext == TakeSample \/ FillTable \/ ScanInterval \/ Areas
=============================================================================
