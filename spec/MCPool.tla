-------------------------------- MODULE MCPool --------------------------------
EXTENDS Pool
CONSTANTS MaxN, MaxW, MaxC
Init == \E k \in 0..MaxN, w \in 1..MaxW, c \in 1..MaxC, o \in BOOLEAN : \E f \in SUBSET (1..k) :
          Cardinality(f) <= 2 /\ PoolStart(k, w, c, o, f)
Spec == Init /\ [][PoolNext]_poolVars /\ WF_poolVars(PoolNext)
Ends == <>(outcome # "run")
(* refinement: every run of the pool is a run of the abstract task list *)
T == INSTANCE Tasks WITH m <- n, ordered <- keep, failing <- fails,
       todo <- (1..n) \ Range(ran), done <- Range(ran),
       answer <- IF outcome = "run" THEN <<"run">> ELSE IF outcome = "ok" THEN <<"ok", results>> ELSE <<"raised">>
Refines == [][T!TasksNext]_(T!taskVars)
RaisedWhenever == [](fails # {} => outcome # "ok")
=============================================================================
