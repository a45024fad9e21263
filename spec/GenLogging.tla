------------------------------ MODULE GenLogging ------------------------------
EXTENDS Logging, Json
VARIABLES st, hist, asked
vars == <<st, hist, asked>>
Pick(S) == RandomElement(S)
Names == {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"ab">>, <<"d">>, <<"d", "e">>, <<"pyEdgeEval", "x">>, <<"pyEdgeEvalX">>}
Lv == {10, 20, 30, 40, 50}
Op(o, k, n, l, f) == [o |-> o, kind |-> k, name |-> n, lv |-> l, file |-> f, mode |-> "w"]
(* children of a not yet configured parent are not asked for before it, so that *)
(* the history stays top-down                                                   *)
Fine(n) == Under(st, n) \/ \A m \in Names \cup {Root} : ~(IsPrefix(n, m) /\ n # m /\ Configured(st, m))
Askable == {n \in Names : Fine(n)}
Init == st = Fresh /\ hist = <<>> /\ asked = {}
Next == IF Len(hist) < 16
        THEN \E k \in {Pick({"get", "get2", "root", "log", "log2", "log3", "print", "level"})} :
             \E x \in {CASE k \in {"get", "get2"} -> Op("get", "", Pick(Askable), Pick({10, 20, 20, 30, 40}), <<0, 0, 1, 2, 1, Unopenable>>[Pick(1..6)])
                         [] k = "root" /\ Fine(Root) -> Op("root", "", Root, Pick({10, 20, 30}), <<0, 0, 1, 2, 1, Unopenable>>[Pick(1..6)])
                         [] k = "level" /\ asked # {} -> Op("level", "", Pick(asked), Pick(Lv), 0)
                         [] k \in {"log", "log2", "log3"} /\ asked # {} -> Op("log", "", Pick(asked), Pick(Lv), 0)
                         [] OTHER -> Op("print", IF asked = {} THEN Pick({"none", "silent", "name", "bad"})
                                                 ELSE Pick({"none", "silent", "name", "name", "logger", "logger", "bad"}),
                                        <<"a">>, Pick(Lv), 0)} :
             \E y \in {IF x.o = "print" THEN [x EXCEPT !.name = IF x.kind = "logger" THEN Pick(asked) ELSE Pick(Askable)]
                        ELSE IF x.o = "get" THEN [x EXCEPT !.mode = Pick({"w", "a"})] ELSE x} :
               /\ st' = Apply(st, y) /\ hist' = Append(hist, y)
               /\ asked' = asked \cup (IF y.o \in {"get", "root"} \/ (y.o = "print" /\ y.kind = "name") THEN {n \in {y.name} : Under(st', n)} ELSE {})
        ELSE PrintT(<<"BEH", ToJson([ops |-> hist])>>) /\ st' = Fresh /\ hist' = <<>> /\ asked' = {}
Spec == Init /\ [][Next]_vars
=============================================================================
