---------------------------- MODULE TraceCounting ---------------------------
(* Validates recorded evaluate_boundaries_threshold calls (single and several *)
(* annotators): the machine of Counting runs as silent steps.                 *)
EXTENDS Counting, Json, TLC, IOUtils
VARIABLE tid
vars == <<countVars, corrVars, tid>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Out == Case.out

TInit == /\ tid \in 1..Len(Cases)
         /\ elig = {} /\ todo = {} /\ right = {} /\ ow = 0 /\ best = <<>>
         /\ CountStart(Cases[tid].in.job)

NeedsSeg == job.kill /\ job.noseg /\ ~Absent

(* annotators matched at all must not be fewer than the best single one        *)
RowOK(i) ==
  LET t == tally[i] IN
  Clause("recall-total", Out.sum_r[i] = t.sr)
  \cup Clause("recall-matched", Out.count_r[i] >= t.crLo /\ Out.count_r[i] <= t.crHi)
  \cup Clause("precision-total", Out.sum_p[i] = t.sp)
  \cup Clause("precision-matched", Out.count_p[i] \in t.cp)
  \cup Clause("one-to-one", job.multi \/ Out.count_r[i] = Out.count_p[i])

LengthsOK == /\ Len(Out.sum_r) = Len(job.thr) /\ Len(Out.count_r) = Len(job.thr)
             /\ Len(Out.sum_p) = Len(job.thr) /\ Len(Out.count_p) = Len(job.thr)

Failed ==
  IF NeedsSeg THEN Clause("missing-segmentation-reported", Case.err # "")
  ELSE IF Case.err # "" THEN {"raised"}
  ELSE IF ~LengthsOK THEN {"one-entry-per-threshold"}
  ELSE UNION {RowOK(i) : i \in 1..Len(job.thr)} \cup Clause("input-kept", Out.kept)

Return ==
  /\ stage = "done"
  /\ stage' = "returned"
  /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
     ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
  /\ UNCHANGED <<job, ti, ai, det, recall, gtsum, hits, loose, tally, corrVars, tid>>

TNext == (CountNext /\ UNCHANGED <<corrVars, tid>>) \/ Return
TSpec == TInit /\ [][TNext]_vars
=============================================================================
