--------------------------- MODULE TraceConvertSbd ---------------------------
EXTENDS ConvertSbd, Json, IOUtils
VARIABLES tid, pc
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
In(t) == Cases[t].in
O == Case.out
Where(p) == {i \in 1..Len(O.files) : O.files[i].path = p}
CallsOf(c) == IF c.how = "calls" THEN Range(c.calls)
              ELSE Whole(Range(c.train) \cup Range(c.val), IF c.reanno THEN Range(c.raws) ELSE {}, IF c.reanno THEN Range(c.thins) ELSE {})
TInit == tid \in 1..Len(Cases) /\ pc = "go" /\ SbdStart(In(tid).samples, In(tid).again, CallsOf(In(tid)))
Run == pc = "go" /\ Case.err = "" /\ todo # {} /\ Call(CHOOSE c \in todo : TRUE) /\ UNCHANGED <<tid, pc>>
KindOf(p) == CHOOSE v \in {"edge", "isedge", "label", "train", "inst"} : \E c \in calls : v \in KindsOf(c) /\ PathOf(c, v) = p
Failed == IF Case.err # "" THEN {"raised"} ELSE
  Clause("file-missing", \A p \in DOMAIN files : Where(p) # {})
  \cup Clause("unexpected-file", \A i \in 1..Len(O.files) : O.files[i].path \in DOMAIN files)
  \cup UNION {UNION {Clause(KindOf(p), O.files[i].img = files[p]) : i \in Where(p)} : p \in DOMAIN files}
  \cup Clause("reannotated-list", O.list = IF Case.in.how = "script" /\ Case.in.reanno THEN Case.in.raws ELSE <<>>)
Return == /\ pc = "go" /\ (Case.err # "" \/ Finished) /\ pc' = "end"
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<sbdVars, tid>>
TSpec == TInit /\ [][Return \/ Run]_<<sbdVars, tid, pc>>
=============================================================================
