---------------------------- MODULE TraceAggregate ----------------------------
(* Validates recorded calculate_metrics calls.                                  *)
EXTENDS Aggregate, Json, IOUtils
CONSTANT Which          \* "scores" (C08) or "areas" (C09)
VARIABLE tid
vars == <<aggVars, tid>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Out == Case.out
Clause(name, cond) == IF cond THEN {} ELSE {name}

TInit == /\ tid \in 1..Len(Cases)
         /\ AggStart(Cases[tid].in.samples, Cases[tid].in.thr)

Tol == 4
FTol == 12

(* ------------------------------------------------------------- C08 clauses *)
IndexOf(t) == {i \in 1..N : Near(thr[i], t, Tol)}
SampleOK(s) ==
  LET o == Out.samples[s]  c == samples[s] IN
  Clause("sample-name", o.name = c.name)
  \cup Clause("sample-best-threshold", IndexOf(o.t) \cap chosen[s] # {})
  \cup Clause("sample-rates", \E i \in IndexOf(o.t) : /\ Near(o.rec, Rec(c, i), Tol) /\ Near(o.prec, Prec(c, i), Tol)
                                                      /\ Near(o.f, FScore(Prec(c, i), Rec(c, i)), FTol))

RowOK(i) == LET o == Out.table[i] IN
  /\ Near(o.t, thr[i], Tol) /\ Near(o.rec, table[i].rec, Tol)
  /\ Near(o.prec, table[i].prec, Tol) /\ Near(o.f, table[i].f, FTol)

(* sums at the reported best thresholds *)
RECURSIVE BestSums(_, _)
BestSums(s, acc) ==
  IF s > Len(samples) THEN acc
  ELSE LET i == CHOOSE j \in IndexOf(Out.samples[s].t) : TRUE  c == samples[s]
       IN BestSums(s + 1, <<acc[1] + c.cr[i], acc[2] + c.sr[i], acc[3] + c.cp[i], acc[4] + c.sp[i]>>)
OisOK == LET b == BestSums(1, <<0, 0, 0, 0>>) IN
  /\ Near(Out.ois.rec, Rate(b[1], b[2]), Tol) /\ Near(Out.ois.prec, Rate(b[3], b[4]), Tol)
  /\ Near(Out.ois.f, FScore(Rate(b[1], b[2]), Rate(b[3], b[4])), FTol)

(* operating points in scanning order: the first listed one, then interval by interval *)
Points == {<<1, 100>>} \cup {<<i, k>> : i \in 2..N, k \in 0..100}
At(pt) == IF pt[1] = 1 THEN [t |-> thr[1], rec |-> table[1].rec, prec |-> table[1].prec] ELSE Point(pt[1], pt[2])
F(pt) == LET a == At(pt) IN FScore(a.prec, a.rec)
IsPoint(pt) == LET a == At(pt) IN
  Near(Out.ods.t, a.t, Tol) /\ Near(Out.ods.rec, a.rec, Tol) /\ Near(Out.ods.prec, a.prec, Tol)
OdsOK == /\ Near(Out.ods.f, odsF, FTol)
         /\ \E pt \in Points : F(pt) >= odsF - FTol /\ IsPoint(pt)
(* where doubles are exact, ties must go to the first point *)
PowerRates == \A i \in 1..N : {table[i].rec, table[i].prec} \subseteq {0, U, U \div 2, U \div 4}
FirstOK ==
  \/ ~PowerRates
  \/ LET B == {pt \in Points : F(pt) = odsF}
         Same(p, q) == LET a == At(p) b == At(q) IN
            (a.rec = b.rec /\ a.prec = b.prec) \/ (a.rec = b.prec /\ a.prec = b.rec)
     IN \/ \E p, q \in B : ~Same(p, q)
        \/ \E p \in Points : F(p) < odsF /\ F(p) >= odsF - FTol
        \/ LET first == CHOOSE p \in B : \A q \in B : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
           IN IsPoint(first)
OneUnit(x) == x >= 0 /\ x <= U + 1

ScoreClauses ==
  Clause("one-row-per-sample", Len(Out.samples) = Len(samples))
  \cup Clause("one-row-per-threshold", Len(Out.table) = N)
  \cup (IF Len(Out.samples) # Len(samples) \/ Len(Out.table) # N THEN {} ELSE
        UNION {SampleOK(s) : s \in 1..Len(samples)}
        \cup Clause("threshold-table", \A i \in 1..N : RowOK(i))
        \cup Clause("ois", (\E s \in 1..Len(samples) : IndexOf(Out.samples[s].t) = {}) \/ OisOK)
        \cup Clause("ods", OdsOK)
        \cup Clause("ods-first-of-ties", FirstOK)
        \cup Clause("ods-dominates", \A i \in 1..N : Out.ods.f >= Out.table[i].f - 1)
        \cup Clause("unit-range", /\ \A v \in {Out.ods.rec, Out.ods.prec, Out.ods.f, Out.ois.rec, Out.ois.prec, Out.ois.f} : OneUnit(v)
                                  /\ \A i \in 1..N : OneUnit(Out.table[i].rec) /\ OneUnit(Out.table[i].prec) /\ OneUnit(Out.table[i].f)))

AreaClauses ==
  Clause("auc", Out.auc >= auc.lo - 60 /\ Out.auc <= auc.hi + 60)
  \cup Clause("ap", Out.ap >= ap.lo - 20 /\ Out.ap <= ap.hi + 20)
  \cup Clause("unit-range", OneUnit(Out.auc) /\ OneUnit(Out.ap))

Failed == IF Case.err # "" THEN {"raised"}
          ELSE (IF Which = "scores" THEN ScoreClauses ELSE AreaClauses)

Return ==
  /\ stage = "done"
  /\ stage' = "returned"
  /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
     ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
  /\ UNCHANGED <<samples, thr, si, total, chosen, table, odsF, auc, ap, tid>>

TNext == (AggNext /\ UNCHANGED tid) \/ Return
TSpec == TInit /\ [][TNext]_vars
=============================================================================
