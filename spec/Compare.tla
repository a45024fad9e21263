------------------------------- MODULE Compare -------------------------------
(* Comparing converted ground truth with reference ground truth: every reference *)
(* image of a split is looked at once, in any order, beside its counterpart; the  *)
(* images that differ are counted, those that differ a lot are named.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES refs, made, todo, misses, named, status
cmpVars == <<refs, made, todo, misses, named, status>>
Slack == 3
Splits == {"train", "val"}
(* where the counterpart of a reference image lies *)
Mate(f) == [split |-> f.split, city |-> f.city, name |-> f.name]
RECURSIVE Bytes(_, _)
Bytes(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE (IF a % 256 = b % 256 THEN 0 ELSE 1) + Bytes(a \div 256, b \div 256)
RECURSIVE RowDiff(_, _, _)
RowDiff(r, s, j) == IF j = 0 THEN 0 ELSE Bytes(r[j], s[j]) + RowDiff(r, s, j - 1)
RECURSIVE Diff(_, _, _)
Diff(a, b, i) == IF i = 0 THEN 0 ELSE RowDiff(a[i], b[i], Len(a[i])) + Diff(a, b, i - 1)
Values(a, b) == Diff(a, b, Len(a))
CmpStart(r, m) == refs = r /\ made = m /\ todo = r /\ misses = [s \in Splits |-> 0] /\ named = {} /\ status = "run"
Look(f) == /\ status = "run" /\ f \in todo /\ todo' = todo \ {f}
           /\ IF Mate(f) \in DOMAIN made
              THEN \E d \in {Values(f.img, made[Mate(f)])} :
                     /\ misses' = [misses EXCEPT ![f.split] = IF d > 0 THEN @ + 1 ELSE @]
                     /\ named' = IF d > Slack THEN named \cup {<<Mate(f), d>>} ELSE named
                     /\ UNCHANGED status
              ELSE status' = "refused" /\ UNCHANGED <<misses, named>>
           /\ UNCHANGED <<refs, made>>
Close == status = "run" /\ todo = {} /\ status' = "done" /\ UNCHANGED <<refs, made, todo, misses, named>>
CmpNext == Close \/ \E f \in todo : Look(f)
=============================================================================
