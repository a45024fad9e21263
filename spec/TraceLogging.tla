----------------------------- MODULE TraceLogging -----------------------------
EXTENDS Logging, Json, IOUtils
VARIABLES tid, i, st, bad
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
TInit == tid \in 1..Len(Cases) /\ i = 0 /\ st = Fresh /\ bad = {}
Clause(name, cond) == IF cond THEN {} ELSE {name}
N == IF Case.err # "" THEN 0 ELSE Len(Case.in.ops)
Step == /\ i < N
        /\ LET op == Case.in.ops[i + 1]  o == Case.out.res[i + 1]  e == Result(st, op) IN
           /\ st' = Apply(st, op)
           /\ bad' = bad \cup Clause("error-of-" \o op.o, o.err = e.err)
                     \cup Clause("stdout", o.out = e.out)
                     \cup Clause("console-exactly-once", o.con = e.con)
                     \cup Clause("log-file", o.f1 = e.f1 /\ o.f2 = e.f2)
                     \cup Clause("earlier-log-content", o.lost = Lost(st'))
                     \cup Clause("handlers", o.hs = e.hs)
        /\ i' = i + 1 /\ UNCHANGED tid
Failed == IF Case.err # "" THEN {"raised"} ELSE bad
Return == /\ i = N /\ i' = N + 1
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
             ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<tid, st, bad>>
TSpec == TInit /\ [][Step \/ Return]_<<tid, i, st, bad>>
=============================================================================
