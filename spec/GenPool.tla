------------------------------- MODULE GenPool -------------------------------
(* random schedules of the pool for replay on the real one *)
EXTENDS Pool, Json
Pick(S) == RandomElement(S)
Start == \E k \in {Pick({0, 1, 2, 3, 4, 5, 6, 7})}, w \in {Pick({1, 2, 2, 3, 4})}, c \in {Pick({1, 1, 2, 3})}, o \in {Pick({TRUE, TRUE, FALSE})} :
         \E f \in {IF k > 0 /\ Pick({0, 0, 1}) = 1 THEN {Pick(1..k)} ELSE {}} : PoolStart(k, w, c, o, f)
Reset == \E k \in {Pick({1, 2, 3, 4, 5, 6, 7})}, w \in {Pick({2, 3, 4})}, c \in {Pick({1, 2, 3})}, o \in {Pick({1, 2, 3}) # 1} :
         \E f \in {IF Pick({1, 2, 3}) = 1 THEN {Pick(1..k)} ELSE {}} :
  /\ n' = k /\ nw' = w /\ size' = c /\ keep' = o /\ fails' = f
  /\ queue' = [x \in 1..((k + c - 1) \div c) |-> x]
  /\ work' = [x \in 1..w |-> [c |-> 0, at |-> 0]]
  /\ ran' = <<>> /\ ready' = <<>> /\ got' = <<>> /\ results' = <<>> /\ outcome' = "run"
Quiet == outcome # "run" /\ queue = <<>> /\ \A w \in 1..nw : work[w].c = 0
Emit == PrintT(<<"BEH", ToJson([n |-> n, w |-> nw, c |-> size, keep |-> IF keep THEN 1 ELSE 0,
                                fails |-> [i \in 1..Cardinality(fails) |-> CHOOSE x \in fails : TRUE], order |-> ran])>>)
Next == IF Quiet THEN Emit /\ Reset
        ELSE LET Busy == {w \in 1..nw : work[w].c # 0}
                 Idle == {w \in 1..nw : work[w].c = 0} IN
             IF Idle # {} /\ queue # <<>> /\ Pick({1, 2, 3}) # 1 THEN \E w \in {Pick(Idle)} : Take(w)
             ELSE IF Busy # {} THEN \E w \in {Pick(Busy)} : Exec(w)
             ELSE Deliver \/ Finish \/ (\E w \in 1..nw : Take(w))
Spec == Start /\ [][Next]_poolVars
=============================================================================
