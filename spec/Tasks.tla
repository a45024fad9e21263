-------------------------------- MODULE Tasks --------------------------------
(* What a caller may assume about running a task list, whatever the schedule:  *)
(* the specification the pool refines and recorded runs are checked against.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES m, ordered, failing, todo, done, answer
taskVars == <<m, ordered, failing, todo, done, answer>>
TasksInit(k, o, f) == m = k /\ ordered = o /\ failing = f /\ todo = 1..k /\ done = {} /\ answer = <<"run">>
Do(t) == /\ t \in todo
         /\ todo' = todo \ {t} /\ done' = done \cup {t}
         /\ UNCHANGED <<m, ordered, failing, answer>>
(* the call returns: one result per task, in order when asked for, and only when nothing failed *)
Perm(s, k) == Len(s) = k /\ {s[i] : i \in 1..Len(s)} = 1..k
Answer == /\ answer = <<"run">> /\ todo = {} /\ failing = {}
          /\ \E s \in [1..m -> 1..m] : Perm(s, m) /\ (ordered => \A i \in 1..m : s[i] = i) /\ answer' = <<"ok", s>>
          /\ UNCHANGED <<m, ordered, failing, todo, done>>
Raise == /\ answer = <<"run">> /\ done \cap failing # {}
         /\ answer' = <<"raised">>
         /\ UNCHANGED <<m, ordered, failing, todo, done>>
TasksNext == (\E t \in todo : Do(t)) \/ Answer \/ Raise
TasksSpec(k, o, f) == TasksInit(k, o, f) /\ [][TasksNext]_taskVars
=============================================================================
