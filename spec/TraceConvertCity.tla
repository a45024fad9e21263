--------------------------- MODULE TraceConvertCity ---------------------------
EXTENDS ConvertCity, Json, IOUtils
VARIABLES tid, pc
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Range(s) == {s[j] : j \in 1..Len(s)}
O == Case.out
Where(p) == {i \in 1..Len(O.files) : O.files[i].path = p}
TInit == tid \in 1..Len(Cases) /\ pc = "go" /\ ConvStart(Cases[tid].in.tree, Cases[tid].in.runs)
Step == IF pieces # {} THEN Piece(CHOOSE t \in pieces : TRUE) ELSE BeginRun
Run == pc = "go" /\ Case.err = "" /\ Step /\ UNCHANGED <<tid, pc>>
ListOK(s) == Len(O.lists[s]) = Cardinality(Listed(s)) /\ Range(O.lists[s]) = Listed(s)
Failed == IF Case.err # "" THEN {"raised"} ELSE
  Clause("file-missing", \A p \in DOMAIN files : Where(p) # {})
  \cup Clause("unexpected-file", \A i \in 1..Len(O.files) : O.files[i].path \in DOMAIN files)
  \cup UNION {UNION {Clause(IF p[1] = "labels" THEN "training-labels" ELSE "boundaries", O.files[i].img = files[p[2]]) : i \in Where(p[2])}
              : p \in {<<IF Len(q) > 24 /\ SubSeq(q, Len(q) - 23, Len(q)) = "_gtFine_labelTrainIds.png" THEN "labels" ELSE "edges", q>> : q \in DOMAIN files}}
  \cup UNION {Clause("split-list", ListOK(s)) : s \in {"train", "val", "test"}}
  \cup Clause("source-kept", O.gone = <<>>)
Return == /\ pc = "go" /\ (Case.err # "" \/ Finished) /\ pc' = "end"
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<convVars, tid>>
TSpec == TInit /\ [][Return \/ Run]_<<convVars, tid, pc>>
=============================================================================
