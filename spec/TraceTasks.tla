------------------------------ MODULE TraceTasks ------------------------------
(* Checks recorded runs against the abstract task list.                        *)
EXTENDS Tasks, Json, IOUtils, TLC
VARIABLES tid, pos, stage, bad
vars == <<taskVars, tid, pos, stage, bad>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Out == Case.out
Range(s) == {s[i] : i \in 1..Len(s)}
TInit == /\ tid \in 1..Len(Cases) /\ pos = 0 /\ bad = {}
         /\ stage = IF Cases[tid].err = "" THEN "run" ELSE "end"
         /\ TasksInit(Cases[tid].in.n, Cases[tid].in.keep = 1, Range(Cases[tid].in.fails))
Clause(name, cond) == IF cond THEN {} ELSE {name}
(* an observed execution *)
Observe == /\ stage = "run" /\ pos < Len(Out.log)
           /\ pos' = pos + 1
           /\ LET t == Out.log[pos + 1] IN
              IF t \in todo THEN Do(t) /\ UNCHANGED bad
              ELSE bad' = bad \cup {"task-executed-once"} /\ UNCHANGED taskVars
           /\ UNCHANGED <<tid, stage>>
(* the observed end of the call *)
Ended == /\ stage = "run" /\ pos = Len(Out.log)
         /\ stage' = "end"
         /\ IF Out.raised = 1
            THEN /\ bad' = bad \cup Clause("raises-only-on-failure", done \cap failing # {})
                 /\ IF done \cap failing # {} THEN Raise ELSE UNCHANGED taskVars
            ELSE /\ LET s == Out.results IN
                    bad' = bad \cup Clause("failure-raises", failing = {})
                               \cup Clause("all-tasks-executed", todo = {})
                               \cup Clause("one-result-per-task", Perm(s, m))
                               \cup Clause("results-in-task-order", ordered => \A i \in 1..Len(s) : s[i] = i)
                 /\ answer' = <<"ok", Out.results>> /\ UNCHANGED <<m, ordered, failing, todo, done>>
         /\ UNCHANGED <<tid, pos>>
Failed == IF Case.err # "" THEN {"raised"}
          ELSE bad \cup (IF Case.in.kind = "metrics" THEN Clause("metrics-equal-sequential", Out.parallel = Out.sequential)
                         ELSE {})
Return == /\ stage = "end" /\ stage' = "returned"
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
             ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<taskVars, tid, pos, bad>>
TSpec == TInit /\ [][Observe \/ Ended \/ Return]_vars
=============================================================================
