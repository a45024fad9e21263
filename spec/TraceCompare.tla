----------------------------- MODULE TraceCompare -----------------------------
EXTENDS Compare, Json, IOUtils
VARIABLES tid, pc
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
O == Case.out
Range(s) == {s[k] : k \in 1..Len(s)}
Clause(n, b) == IF b THEN {} ELSE {n}
Key(f) == [split |-> f.split, city |-> f.city, name |-> f.name]
Rf(f) == [split |-> f.split, city |-> f.city, name |-> f.name, img |-> f.img]
TInit == \E k \in 1..Len(Cases) : \E c \in {Cases[k].in} : tid = k /\ pc = "go" /\
           CmpStart({Rf(c.refs[j]) : j \in {j \in 1..Len(c.refs) : c.refs[j].split \in Splits}},
                    [x \in {Key(c.made[j]) : j \in 1..Len(c.made)} |-> c.made[CHOOSE j \in 1..Len(c.made) : Key(c.made[j]) = x].img])
Go == /\ pc = "go" /\ status = "run" /\ UNCHANGED <<tid, pc>>
      /\ IF todo = {} THEN Close ELSE Look(CHOOSE f \in todo : TRUE)
Named == {<<[split |-> O.named[j].split, city |-> O.named[j].city, name |-> O.named[j].name], O.named[j].d>> : j \in 1..Len(O.named)}
Failed == IF Case.in.is THEN Clause("instance-sensitive-refused", Case.err = "AssertionError")
          ELSE IF status = "refused" THEN Clause("missing-counterpart-refused", Case.err # "")
          ELSE IF Case.err # "" THEN {"raised"}
          ELSE Clause("train-count", O.train = <<misses["train"]>>) \cup Clause("val-count", O.val = <<misses["val"]>>)
               \cup Clause("named-images", Named = named) \cup Clause("named-once", Len(O.named) = Cardinality(named))
               \cup Clause("files-untouched", O.same)
Return == /\ pc = "go" /\ (status # "run" \/ Case.in.is) /\ pc' = "end" /\ UNCHANGED <<cmpVars, tid>>
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
TSpec == TInit /\ [][Go \/ Return]_<<cmpVars, tid, pc>>
=============================================================================
