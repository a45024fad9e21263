-------------------------------- MODULE Session --------------------------------
(* A session: processes that perform calls in any order, fork and start afresh.  What a call reports is a number of keyed   *)
(* observations (a threshold's counts, a sample's scores, a file's bytes).  The matching of two edge maps draws part of its *)
(* graph from a generator that lives in the process; the answer of a call may depend on the map (the input), the key, and   *)
(* the state the generator has when the key is worked on.  Reproducible: one key, one answer, whatever happened before.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* what the session remembers: the first answer to every key *)
NothingYet == [k \in {} |-> ""]
Remember(memo, key, ans) == IF key \in DOMAIN memo THEN memo ELSE memo @@ (key :> ans)
Agrees(memo, key, ans) == key \in DOMAIN memo => memo[key] = ans
RECURSIVE RememberAll(_, _)
RememberAll(memo, obs) == IF obs = <<>> THEN memo ELSE RememberAll(Remember(memo, Head(obs)[1], Head(obs)[2]), Tail(obs))
Differing(memo, obs) == {obs[j][1] : j \in {j \in 1..Len(obs) : ~Agrees(RememberAll(memo, SubSeq(obs, 1, j - 1)), obs[j][1], obs[j][2])}}

(* the processes of a session *)
NoProc == 99
Live(procs) == {p \in DOMAIN procs : procs[p] # NoProc}
SFork(procs, p, q) == [procs EXCEPT ![q] = procs[p]]
SFresh(procs, p, g) == [procs EXCEPT ![p] = g]
================================================================================
