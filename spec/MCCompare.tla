------------------------------ MODULE MCCompare ------------------------------
EXTENDS Compare
CONSTANTS Wide
Imgs == IF Wide THEN {<<<<a, 0>>>> : a \in {0, 1, 65793}} \cup {<<<<0, 1>>>>} ELSE {<<<<a, b>>>> : a \in {0, 257}, b \in {0, 65793}}
Slots == {[split |-> s, city |-> "x", name |-> n] : s \in Splits, n \in IF Wide THEN {"a", "b"} ELSE {"a"}}
Ref(s, i) == [split |-> s.split, city |-> s.city, name |-> s.name, img |-> i]
Init == \E R \in SUBSET Slots : \E M \in SUBSET Slots : \E r \in [R -> Imgs] : \E m \in [M -> Imgs] :
          (Wide => R \subseteq M) /\ CmpStart({Ref(s, r[s]) : s \in R}, m)
Spec == Init /\ [][CmpNext]_cmpVars
Differ(s) == {f \in refs : f.split = s /\ Mate(f) \in DOMAIN made /\ f.img # made[Mate(f)]}
CountsDiffering == status = "done" => \A s \in Splits : misses[s] = Cardinality(Differ(s))
CleanIffEqual == status = "done" => ((\A s \in Splits : misses[s] = 0) <=> \A f \in refs : f.img = made[Mate(f)])
NamedDiffer == \A x \in named : x[2] > Slack /\ \E f \in Differ(x[1].split) : Mate(f) = x[1]
RefusedOnlyWithoutMate == status = "refused" => \E f \in refs : Mate(f) \notin DOMAIN made
NeverDoneWithoutMate == status = "done" => \A f \in refs : Mate(f) \in DOMAIN made
=============================================================================
