---------------------------- MODULE TraceProgress ----------------------------
EXTENDS Progress, Json, IOUtils
VARIABLES tid, i, st, bad
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
History == Case.in.kind = "history"
TInit == tid \in 1..Len(Cases) /\ i = 0 /\ st = Fresh /\ bad = {}
Clause(name, cond) == IF cond THEN {} ELSE {name}
(* one observed operation, explained by the specification *)
Step == /\ Case.err = "" /\ History /\ i < Len(Case.in.ops)
        /\ LET op == Case.in.ops[i + 1]  o == Case.out.res[i + 1]  e == Result(st, op) IN
           /\ st' = Apply(st, op)
           /\ bad' = bad \cup Clause("result-of-" \o op.o, o = e)
        /\ i' = i + 1 /\ UNCHANGED tid
TrackClauses ==
  LET c == Case.in  o == Case.out  n == c.n
      skip == IF c.helper = "parallel" /\ c.skip = 1 THEN c.nproc * c.chunk ELSE 0 IN
  IF c.badtype = 1 THEN Clause("untrackable-refused", o.err = "TypeError")
  ELSE Clause("no-error", o.err = "")
  \cup (IF o.err # "" THEN {} ELSE
     Clause("every-task-once-in-order", IF c.helper = "parallel"
              THEN /\ Len(o.executed) = n /\ {o.executed[k] : k \in 1..Len(o.executed)} = 1..n
              ELSE o.executed = [k \in 1..n |-> k])
     \cup Clause("results", IF c.helper = "parallel" /\ c.keep = 0
              THEN Len(o.results) = n /\ {o.results[k] : k \in 1..Len(o.results)} = {k * 3 + c.plus : k \in 1..n}
              ELSE o.results = [k \in 1..n |-> IF c.helper = "iter" THEN k ELSE k * 3 + c.plus])
     \cup Clause("displayed-counts", o.shows = TrackShows(n, c.tot, skip, c.nobar = 1)))
Finished == IF Case.err # "" THEN TRUE ELSE IF History THEN i = Len(Case.in.ops) ELSE TRUE
Failed == IF Case.err # "" THEN {"raised"} ELSE IF History THEN bad ELSE TrackClauses
Return == /\ i >= 0 /\ Finished /\ i' = -1
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
             ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<tid, st, bad>>
TSpec == TInit /\ [][i >= 0 /\ (Step \/ Return)]_<<tid, i, st, bad>>
=============================================================================
