-------------------------------- MODULE Pool --------------------------------
(* The worker pool that runs a task list: tasks are grouped in chunks, taken   *)
(* by workers in queue order, executed one after the other, and delivered in   *)
(* order (or in completion order when order keeping is off).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES n, nw, size, keep, fails,   \* tasks, workers, chunk size, order keeping, failing tasks
          queue,      \* chunks not yet taken
          work,       \* worker -> [c |-> chunk or 0, at |-> next task]
          ran,        \* sequence of executed tasks in completion order
          ready,      \* completed chunks not yet delivered, in completion order: [c, ok]
          got,        \* chunks delivered so far, in order
          results,    \* delivered tasks' results, in order
          outcome     \* "run", "ok" or "raised"
poolVars == <<n, nw, size, keep, fails, queue, work, ran, ready, got, results, outcome>>

Range(s) == {s[i] : i \in 1..Len(s)}
Chunks == (n + size - 1) \div size
First(c) == (c - 1) * size + 1
Last(c) == IF c * size < n THEN c * size ELSE n
ChunkTasks(c) == [k \in 1..(Last(c) - First(c) + 1) |-> First(c) + k - 1]

PoolStart(tasks, workers, chunk, ordered, failing) ==
  /\ n = tasks /\ nw = workers /\ size = chunk /\ keep = ordered /\ fails = failing
  /\ queue = [c \in 1..((tasks + chunk - 1) \div chunk) |-> c]
  /\ work = [w \in 1..workers |-> [c |-> 0, at |-> 0]]
  /\ ran = <<>> /\ ready = <<>> /\ got = <<>> /\ results = <<>> /\ outcome = "run"

Take(w) == /\ work[w].c = 0 /\ queue # <<>>
           /\ work' = [work EXCEPT ![w] = [c |-> Head(queue), at |-> First(Head(queue))]]
           /\ queue' = Tail(queue)
           /\ UNCHANGED <<n, nw, size, keep, fails, ran, ready, got, results, outcome>>

(* the worker runs its next task; a failing task ends its chunk *)
Exec(w) ==
  /\ work[w].c # 0
  /\ LET c == work[w].c  t == work[w].at  bad == t \in fails IN
     /\ ran' = Append(ran, t)
     /\ IF bad \/ t = Last(c)
        THEN /\ ready' = Append(ready, [c |-> c, ok |-> ~bad])
             /\ work' = [work EXCEPT ![w] = [c |-> 0, at |-> 0]]
        ELSE /\ work' = [work EXCEPT ![w].at = t + 1] /\ UNCHANGED ready
  /\ UNCHANGED <<n, nw, size, keep, fails, queue, got, results, outcome>>

Deliverable == IF keep THEN {i \in 1..Len(ready) : ready[i].c = Len(got) + 1}
               ELSE IF ready = <<>> THEN {} ELSE {1}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Deliver ==
  /\ outcome = "run"
  /\ \E i \in Deliverable :
       LET r == ready[i] IN
       /\ ready' = Without(ready, i)
       /\ IF r.ok THEN /\ got' = Append(got, r.c) /\ results' = results \o ChunkTasks(r.c) /\ UNCHANGED outcome
          ELSE /\ outcome' = "raised" /\ UNCHANGED <<got, results>>
  /\ UNCHANGED <<n, nw, size, keep, fails, queue, work, ran>>

Finish == /\ outcome = "run" /\ Len(got) = Chunks
          /\ outcome' = "ok"
          /\ UNCHANGED <<n, nw, size, keep, fails, queue, work, ran, ready, got, results>>

PoolNext == (\E w \in 1..nw : Take(w) \/ Exec(w)) \/ Deliver \/ Finish

(* ------------------------------------------------------------ what users rely on *)
InOrder == [i \in 1..n |-> i]
NeverTwice == \A i, j \in 1..Len(ran) : ran[i] = ran[j] => i = j
OnlyDelivered == Range(results) \subseteq Range(ran)
PrefixWhenOrdered == keep => results = [i \in 1..Len(results) |-> i]
Complete == outcome = "ok" => /\ Range(results) = 1..n /\ Len(results) = n /\ fails = {}
                              /\ Len(ran) = n
                              /\ (keep => results = InOrder)
NoPartial == outcome = "ok" => fails = {}
=============================================================================
