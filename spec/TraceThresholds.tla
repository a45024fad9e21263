--------------------------- MODULE TraceThresholds ---------------------------
EXTENDS Args, Json, IOUtils
VARIABLES tid, got
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Accepted(f) == f \in {"int", "float", "list", "array", "array32"}
Expected(c) == IF c.form = "int" THEN Spread(c.n) ELSE c.vals
TInit == tid \in 1..Len(Cases) /\ got = {"-"}
Judge == /\ got = {"-"} /\ UNCHANGED tid
         /\ got' = IF Case.err # "" THEN {"raised"}
                   ELSE IF ~Accepted(Case.in.form) THEN Clause("not-refused", Case.out.refused)
                   ELSE IF Case.out.refused THEN {"refused"}
                   ELSE \* an integer is spread evenly, values are kept in order
                        Clause("values", Len(Case.out.vals) = Len(Expected(Case.in))
                               /\ \A i \in 1..Len(Expected(Case.in)) : Abs(Case.out.vals[i] - Expected(Case.in)[i]) <= 1)
Return == /\ got # {"-"} /\ "end" \notin got /\ got' = {"end"} /\ UNCHANGED tid
          /\ IF got = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in got : PrintT(<<"VERDICT", tid, c>>)
TSpec == TInit /\ [][Judge \/ Return]_<<tid, got>>
=============================================================================
