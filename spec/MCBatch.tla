------------------------------- MODULE MCBatch -------------------------------
(* every small folder, with pictures already there, runs, aborted runs and inputs added in between *)
EXTENDS Batch
CONSTANTS Files, Models, MaxRuns, FileNames
(* two inputs share a name *)
ThreeNames == <<"a", "a", "b">>
FourNames == <<"a", "a", "b", "c">>
VARIABLES left, first, full   \* runs left; pictures at the start; whether the last run was completed after the last change
vars == <<batchVars, left, first, full>>
File(i) == [name |-> FileNames[i], ext |-> IF i % 2 = 1 THEN ".mat" ELSE ".npy", id |-> i]
All == {File(i) : i \in 1..Files}
Kinds == {[kind |-> "folder", models |-> {}, ext |-> ""]} \cup {[kind |-> "models", models |-> M, ext |-> e] : M \in SUBSET Models \ {{}}, e \in {".mat", ".npy"}}
Paths == {PathOf(m, f) : m \in Models \cup {""}, f \in All}
Nothing == [p \in {} |-> 0]
Init == \E I \in SUBSET All : \E B \in {b \in SUBSET Paths : Cardinality(b) < 2} :
          BatchStart(I, [p \in B |-> -1]) /\ left = MaxRuns /\ first = saved /\ full = Idle
Next == \/ left > 0 /\ left' = left - 1 /\ full' = Idle /\ UNCHANGED first /\ \E r \in Kinds : Begin(r)
        \/ UNCHANGED <<left, first, full>> /\ \E t \in pending : Visit(t)
        \/ End /\ full' = run /\ UNCHANGED <<left, first>>
        \/ Abort /\ full' = Idle /\ UNCHANGED <<left, first>>
        \/ full' = Idle /\ UNCHANGED <<left, first>> /\ \E f \in All : Add(f)
Spec == Init /\ [][Next]_vars
NeverOverwritten == [][\A p \in DOMAIN saved : p \in DOMAIN saved' /\ saved'[p] = saved[p]]_vars
KeptFromBefore == \A p \in DOMAIN first : saved[p] = -1
OwnContent == \A p \in DOMAIN saved : saved[p] > 0 => \E f \in inputs : f.id = saved[p] /\ \E m \in Models \cup {""} : p = PathOf(m, f)
CompleteAfterFullRun == full # Idle => \A t \in Taken(full, inputs) : PathOf(t[1], t[2]) \in DOMAIN saved
NothingElse == \A p \in DOMAIN saved : p \in DOMAIN first \/ \E t \in (Models \cup {""}) \X inputs : p = PathOf(t[1], t[2])
=============================================================================
