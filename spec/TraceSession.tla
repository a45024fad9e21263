------------------------------ MODULE TraceSession ------------------------------
(* A recorded session: every operation with the keyed observations its call reported. *)
EXTENDS Session, Json, IOUtils
VARIABLES tid, i, memo, procs, bad
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Clause(n, b) == IF b THEN {} ELSE {n}
N == IF Case.err # "" THEN 0 ELSE Len(Case.in.ops)
TInit == tid \in 1..Len(Cases) /\ i = 0 /\ memo = NothingYet /\ bad = {} /\ procs = <<0, NoProc, NoProc>>
Kind(c) == Case.in.calls[c].kind
Step == /\ i < N
        /\ \E op \in {Case.in.ops[i + 1]} : \E o \in {Case.out.res[i + 1]} :
             IF op.k = "call"
             THEN /\ op.p \in Live(procs) /\ UNCHANGED procs
                  /\ memo' = RememberAll(memo, o.obs)
                  /\ bad' = bad \cup Clause("reproducible-" \o Kind(op.c), Differing(memo, o.obs) = {})
                                \cup Clause("arguments-untouched-" \o Kind(op.c), o.same)
                                \cup Clause("raised-" \o Kind(op.c), o.err = "")
             ELSE /\ procs' = IF op.k = "fork" THEN SFork(procs, op.p, op.q) ELSE SFresh(procs, op.p, 0)
                  /\ UNCHANGED <<memo, bad>>
        /\ i' = i + 1 /\ UNCHANGED tid
Failed == IF Case.err # "" THEN {"raised"} ELSE bad
Return == /\ i = N /\ i' = N + 1
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<tid, memo, bad, procs>>
TSpec == TInit /\ [][Step \/ Return]_<<tid, i, memo, procs, bad>>
================================================================================
