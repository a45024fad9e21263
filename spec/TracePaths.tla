------------------------------ MODULE TracePaths ------------------------------
EXTENDS Paths, Json, IOUtils
VARIABLES tid, i, fs, bad
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
TInit == tid \in 1..Len(Cases) /\ i = 0 /\ fs = Fresh /\ bad = {}
Clause(name, cond) == IF cond THEN {} ELSE {name}
Range(s) == {s[k] : k \in 1..Len(s)}
N == IF Case.err # "" THEN 0 ELSE Len(Case.in.ops)
(* the recorded folder contents after an operation: [p, k, t] triples *)
Tree(t) == {[p |-> t[k].p, k |-> t[k].k, t |-> t[k].t] : k \in 1..Len(t)}
Step == /\ i < N
        /\ \E op \in {Case.in.ops[i + 1]} : \E o \in {Case.out.res[i + 1]} : \E e \in {Result(fs, op)} :
           \E after \in {Apply(fs, op)} :
           /\ fs' = after
           /\ bad' = bad \cup Clause("outcome-of-" \o op.o, o.err = e.err)
                     \cup Clause("files-found", Range(o.files) = e.files)
                     \cup Clause("each-once", Len(o.files) = Cardinality(Range(o.files)))
                     \cup Clause("file-system-after-" \o op.o, Tree(o.tree) = after)
        /\ i' = i + 1 /\ UNCHANGED tid
Failed == IF Case.err # "" THEN {"raised"} ELSE bad
Return == /\ i = N /\ i' = N + 1
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
             ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<tid, fs, bad>>
TSpec == TInit /\ [][Step \/ Return]_<<tid, i, fs, bad>>
=============================================================================
