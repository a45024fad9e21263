-------------------------- MODULE TraceGroundTruth --------------------------
EXTENDS GroundTruth, Json, IOUtils
VARIABLES tid, pc
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
O == Case.out
TInit == tid \in 1..Len(Cases) /\ pc = "go" /\ GtStart(Cases[tid].in.file, Cases[tid].in.reader)
Run == pc = "go" /\ GtNext /\ UNCHANGED <<tid, pc>>
Failed == IF step = "refused" THEN Clause("absent-category-refused", Case.err = "AssertionError")
  ELSE IF Case.err # "" THEN {"raised"}
  ELSE Clause("boundaries", O.planes = view.planes) \cup Clause("segmentation", O.seg = view.seg)
       \cup Clause("categories", O.cats = view.cats) \cup Clause("names", O.names = view.names)
       \cup Clause("one-entry-each", file.kind = "annotators" => Len(O.planes) = Len(file.planes))
Return == /\ pc = "go" /\ step \in {"done", "refused"} /\ pc' = "end"
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<gtVars, tid>>
TSpec == TInit /\ [][Run \/ Return]_<<gtVars, tid, pc>>
=============================================================================
