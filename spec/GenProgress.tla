----------------------------- MODULE GenProgress -----------------------------
(* random histories for replay on the real code *)
EXTENDS Progress, Json
VARIABLES st, hist
MaxLen == 24
AllOps == TimerOps \cup MarkOps \cup Ticks({1, 2, 3, 4, 7, 40}) \cup BarOps({0, 1, 3, 10, 1000}, {-1, 0, 1, 2, 5, 100})
Draw == RandomElement({op \in AllOps : Sensible(st, op)})
Init == st = Fresh /\ hist = <<>>
Next == IF Len(hist) < MaxLen
        THEN \E kind \in {RandomElement({"timer", "timer", "mark", "bar", "tick", "tick"})} :
             \E op \in {LET S == {o \in (CASE kind = "timer" -> TimerOps [] kind = "mark" -> MarkOps
                                           [] kind = "bar" -> BarOps({0, 1, 3, 10, 1000}, {-1, 0, 1, 2, 5, 100})
                                           [] OTHER -> Ticks({1, 2, 3, 4, 7, 40})) : Sensible(st, o)}
                        IN IF S = {} THEN Op("tick", "", 1, 0) ELSE RandomElement(S)} :
                st' = Apply(st, op) /\ hist' = Append(hist, op)
        ELSE /\ PrintT(<<"BEH", ToJson([ops |-> hist])>>) /\ st' = Fresh /\ hist' = <<>>
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
