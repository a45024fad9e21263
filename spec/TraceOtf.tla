------------------------------ MODULE TraceOtf ------------------------------
(* one image evaluated on the fly and, where the protocol has converted ground  *)
(* truth, from the converted files: every route has to end in the machine's     *)
(* counts, and the scores the evaluators store have to be those of the counts.  *)
EXTENDS Pipeline, Fixed, Json, IOUtils
VARIABLE tid
vars == <<countVars, corrVars, pipeVars, tid>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
TInit == /\ tid \in 1..Len(Cases)
         /\ elig = {} /\ todo = {} /\ right = {} /\ ow = 0 /\ best = <<>> /\ Idle
         /\ PipeStart(Cases[tid].in.job)
Named(o, c, ok) == Clause(o.route \o "-" \o c, ok)
RowOK(o, i) ==
  LET t == tally[i] IN
  Named(o, "recall-total", o.sum_r[i] = t.sr)
  \cup Named(o, "recall-matched", o.count_r[i] >= t.crLo /\ o.count_r[i] <= t.crHi)
  \cup Named(o, "precision-total", o.sum_p[i] = t.sp)
  \cup Named(o, "one-to-one", o.count_r[i] = o.count_p[i])
LengthsOK(o) == Len(o.sum_r) = Len(job.thr) /\ Len(o.count_r) = Len(job.thr) /\ Len(o.sum_p) = Len(job.thr) /\ Len(o.count_p) = Len(job.thr)
CountsOK(o) == IF ~LengthsOK(o) THEN {o.route \o "-one-entry-per-threshold"} ELSE UNION {RowOK(o, i) : i \in 1..Len(job.thr)}
Tol == 20
Score(s, i) ==
  LET t == tally[i] IN
  Named(s, "score-threshold", Near(s.rows[i][1], 10000 * req.thr[i], Tol))
  \cup Named(s, "score-recall", \E m \in t.crLo..t.crHi : Near(s.rows[i][2], Rate(m, t.sr), Tol) /\ Near(s.rows[i][3], Rate(m, t.sp), Tol))
ScoresOK(s) == IF Len(s.rows) # Len(job.thr) THEN {s.route \o "-score-rows"} ELSE UNION {Score(s, i) : i \in 1..Len(job.thr)}
Failed == IF Case.err # "" THEN {"raised"}
          ELSE UNION {CountsOK(Case.out.outs[k]) : k \in 1..Len(Case.out.outs)} \cup UNION {ScoresOK(Case.out.scores[k]) : k \in 1..Len(Case.out.scores)}
Return == /\ (IF Case.err # "" THEN pst = "scale" ELSE stage = "done")
          /\ stage' = "returned" /\ pst' = "returned"
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<job, ti, ai, det, recall, gtsum, hits, loose, tally, corrVars, req, plane, pmap, mask, imap, tid>>
TNext == (PipeNext /\ UNCHANGED <<corrVars, tid>>) \/ Return
TSpec == TInit /\ [][TNext]_vars
=============================================================================
