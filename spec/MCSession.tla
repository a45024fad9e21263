------------------------------- MODULE MCSession -------------------------------
EXTENDS Session
CONSTANTS Procs, Inputs, Keys, Gens, MaxSteps,
          Reseeds           (* whether every matching starts the generator anew *)
VARIABLES procs,            (* process -> "none" or the state of its generator *)
          F,                (* the answer for an input, a key and a generator state: arbitrary *)
          memo, differs, steps
vars == <<procs, F, memo, differs, steps>>
G(s) == IF Reseeds THEN 0 ELSE s
Advance(s, n) == IF Reseeds THEN s ELSE (s + n) % Cardinality(Gens)
(* the observations of a call: the keys one after the other, each using what the generator left *)
Obs(s, i, ks) == [j \in 1..Len(ks) |-> <<<<i, ks[j]>>, F[<<i, ks[j], G(Advance(s, j - 1))>>]>>]
KeyLists == {<<k>> : k \in Keys} \cup {<<k, l>> : k \in Keys, l \in Keys}
Init == /\ \E g \in Gens : procs = [p \in Procs |-> IF p = 1 THEN g ELSE NoProc]
        /\ F \in [Inputs \X Keys \X Gens -> {0, 1}] /\ memo = NothingYet /\ differs = {} /\ steps = 0
Call(p, i, ks) == /\ \E obs \in {Obs(procs[p], i, ks)} :
                       /\ differs' = differs \cup Differing(memo, obs)
                       /\ memo' = RememberAll(memo, obs)
                  /\ procs' = [procs EXCEPT ![p] = Advance(procs[p], Len(ks))]
Step == /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED F
        /\ \/ \E p \in Live(procs), i \in Inputs, ks \in KeyLists : Call(p, i, ks)
           \/ \E p \in Live(procs) : \E q \in Procs \ {p} : procs' = SFork(procs, p, q) /\ UNCHANGED <<memo, differs>>
           \/ \E p \in Procs, g \in Gens : procs' = SFresh(procs, p, g) /\ UNCHANGED <<memo, differs>>
Spec == Init /\ [][Step]_vars
TypeOK == /\ \A p \in Procs : procs[p] \in Gens \cup {NoProc}
         /\ DOMAIN memo \subseteq Inputs \X Keys
          /\ \A k \in DOMAIN memo : memo[k] \in {0, 1}
Reproducible == differs = {}
(* the memory is the function of input and key alone *)
IsFunction == Reseeds => \A k \in DOMAIN memo : memo[k] = F[<<k[1], k[2], 0>>]
NeverForgets == [][\A k \in DOMAIN memo : k \in DOMAIN memo' /\ memo'[k] = memo[k]]_vars
================================================================================
