------------------------------ MODULE TraceBatch ------------------------------
(* recorded runs over real folders.  `unreadable` inputs end a run that comes to them; *)
(* where the order of a run matters (a stopped run) the pictures seen tell it.         *)
EXTENDS Batch, Json, IOUtils
VARIABLES tid, i, pc, bad
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
N == IF Case.err # "" THEN 0 ELSE Len(Case.in.ops)
Op == Case.in.ops[i + 1]
Seen == Case.out.seen[i + 1]
Range(s) == {s[k] : k \in 1..Len(s)}
Clause(n, b) == IF b THEN {} ELSE {n}
File(f) == [name |-> f.name, ext |-> f.ext, id |-> f.id]
Unreadable == {t \in pending : t[2].id \in Range(Case.in.unreadable) /\ PathOf(t[1], t[2]) \notin DOMAIN saved}
Have == {Seen.tree[k].p : k \in 1..Len(Seen.tree)}
(* the pictures on disk are one of the contents the specification allows (near-equal inputs may coincide) *)
Same == \A k \in 1..Len(Seen.tree) : LET e == Seen.tree[k] IN e.p \in DOMAIN saved => saved[e.p] \in Range(e.ids)
Judge == Clause("existing-changed", \A k \in 1..Len(Seen.tree) : LET e == Seen.tree[k] IN e.p \in DOMAIN saved /\ saved[e.p] < 0 => saved[e.p] \in Range(e.ids))
         \cup Clause("content", Same) \cup Clause("missing", DOMAIN saved \subseteq Have) \cup Clause("unexpected", Have \subseteq DOMAIN saved)
TInit == \E k \in 1..Len(Cases) : tid = k /\ i = 0 /\ pc = "next" /\ bad = {}
          /\ BatchStart({}, [p \in Range(Cases[k].in.before) |-> -1])
Next1 == /\ pc = "next" /\ i < N
         /\ IF Op.o = "add" THEN /\ \E f \in {File(Op.file)} : Add(f)
                                 /\ pc' = "judge" /\ UNCHANGED bad
            ELSE IF Op.o = "one" THEN
                    (* one picture, given directly *)
                    /\ pc' = "judge" /\ bad' = bad \cup Clause("raised-" \o Op.o, Seen.err = "") \cup Clause("returned", Seen.err = "" => Op.id \in Range(Seen.ret))
                    /\ saved' = (IF Op.save THEN Put(saved, Op.path, Op.id) ELSE saved) /\ UNCHANGED <<inputs, run, pending>>
            ELSE IF Op.refused # "" THEN /\ pc' = "judge" /\ bad' = bad \cup Clause("refused", Seen.err = Op.refused) /\ UNCHANGED batchVars
            ELSE /\ Begin([kind |-> Op.o, models |-> Range(Op.models), ext |-> Op.ext]) /\ pc' = "run" /\ UNCHANGED bad
         /\ UNCHANGED <<tid, i>>
(* what was seen on disk was visited *)
Go == /\ pc = "run" /\ UNCHANGED <<tid, i>>
      /\ \E todo \in {{t \in pending : PathOf(t[1], t[2]) \in Have \cup DOMAIN saved}} :
         IF todo # {} THEN Visit(CHOOSE t \in todo : TRUE) /\ UNCHANGED <<pc, bad>>
         ELSE IF Seen.err # "" THEN /\ bad' = bad \cup Clause("stopped-without-reason", Unreadable # {})
                                    /\ pc' = "judge" /\ IF pending = {} THEN End ELSE Abort
         ELSE IF pending = {} THEN End /\ pc' = "judge" /\ UNCHANGED bad
         ELSE Abort /\ pc' = "judge" /\ bad' = bad \cup Clause(IF Unreadable # {} THEN "unreadable-skipped" ELSE "missing", FALSE)
Compare == pc = "judge" /\ pc' = "next" /\ i' = i + 1 /\ bad' = bad \cup Judge /\ UNCHANGED <<tid, batchVars>>
Failed == IF Case.err # "" THEN {"raised"} ELSE bad
Return == /\ pc = "next" /\ i = N /\ pc' = "end" /\ UNCHANGED <<batchVars, tid, i, bad>>
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
TSpec == TInit /\ [][Next1 \/ Go \/ Compare \/ Return]_<<batchVars, tid, i, pc, bad>>
=============================================================================
