---------------------------- MODULE TracePipeline ----------------------------
(* recorded single-image evaluations against the machine of Pipeline           *)
EXTENDS Pipeline, Json, IOUtils
VARIABLE tid
vars == <<countVars, corrVars, pipeVars, tid>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Out == Case.out
TInit == /\ tid \in 1..Len(Cases)
         /\ elig = {} /\ todo = {} /\ right = {} /\ ow = 0 /\ best = <<>> /\ Idle
         /\ PipeStart(Cases[tid].in.job)
Refused == Case.in.bits # 8
RowOK(o, i) ==
  LET t == tally[i] IN
  Clause("recall-total", o.sum_r[i] = t.sr)
  \cup Clause("recall-matched", o.count_r[i] >= t.crLo /\ o.count_r[i] <= t.crHi)
  \cup Clause("precision-total", o.sum_p[i] = t.sp)
  \cup Clause("precision-matched", o.count_p[i] \in t.cp)
  \cup Clause("one-to-one", job.multi \/ o.count_r[i] = o.count_p[i])
LengthsOK(o) == Len(o.sum_r) = Len(job.thr) /\ Len(o.count_r) = Len(job.thr) /\ Len(o.sum_p) = Len(job.thr) /\ Len(o.count_p) = Len(job.thr)
CountsOK(o) == IF ~LengthsOK(o) THEN {"one-entry-per-threshold"} ELSE UNION {RowOK(o, i) : i \in 1..Len(job.thr)}
Failed == IF Refused THEN Clause("refused", Case.err # "")
          ELSE IF Case.err # "" THEN {"raised"}
          ELSE CountsOK(Out)
Return == /\ (IF Refused \/ Case.err # "" THEN pst = "scale" ELSE stage = "done")
          /\ stage' = "returned" /\ pst' = "returned"
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<job, ti, ai, det, recall, gtsum, hits, loose, tally, corrVars, req, plane, pmap, mask, imap, tid>>
TNext == (PipeNext /\ UNCHANGED <<corrVars, tid>>) \/ Return
TSpec == TInit /\ [][TNext]_vars
=============================================================================
