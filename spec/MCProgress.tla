------------------------------ MODULE MCProgress ------------------------------
EXTENDS Progress
CONSTANTS MaxClock, MaxDone, Which
VARIABLES st, res, opv
vars == <<st, res, opv>>
AllOps == IF Which = "timer" THEN TimerOps \cup MarkOps \cup Ticks({1, 2})
          ELSE BarOps({0, 2, 3}, {-1, 0, 1, 2}) \cup Ticks({1})
Init == st = Fresh /\ res = Nothing /\ opv = Op("tick", "", 1, 0)
Next == \E op \in AllOps : /\ Sensible(st, op) /\ st' = Apply(st, op) /\ res' = Result(st, op) /\ opv' = op
Spec == Init /\ [][Next]_vars
Bound == st.clock <= MaxClock /\ \A b \in Bars : st.bar[b].done <= MaxDone
(* a timer's begin never lies after its last check, nor that after now *)
Ordered == \A t \in Timers : st.timer[t].begin <= st.timer[t].last /\ st.timer[t].last <= st.clock
MarksPast == \A m \in Marks : st.mark[m] <= st.clock
NonNegative == res.k \in {"num", "print"} => res.v >= 0
(* reading a stopped timer is refused and changes nothing *)
StoppedRefuses == [][(opv'.o \in {"since_start", "since_last", "exit"} /\ ~st.timer[opv'.id].on)
                     => res' = Refused /\ st' = st]_vars
(* only a start of a stopped timer moves its begin *)
BeginStable == [][\A t \in Timers : st'.timer[t].begin # st.timer[t].begin =>
                    /\ ~st.timer[t].on /\ opv'.o \in {"new", "start", "enter"}]_vars
(* timers, check points and bars do not influence each other *)
Independent == [][/\ \A t \in Timers : (opv'.id # t) => st'.timer[t] = st.timer[t]
                  /\ \A b \in Bars : (opv'.o \in {"bar", "update", "bar_start"} /\ opv'.id # b) => st'.bar[b] = st.bar[b]]_vars
DoneIsSum == [][\A b \in Bars : st'.bar[b].done = st.bar[b].done +
                  (IF opv'.o = "update" /\ opv'.id = b /\ opv'.n > 0 THEN opv'.n ELSE 0) \/ opv'.o = "bar"]_vars
(* tracking helpers end with everything counted *)
ASSUME \A n \in 0..6, k \in 0..3 : LET s == TrackShows(n, n, k, FALSE) IN
         Len(s) > 0 => s[Len(s)] = <<n - k, n - k>>
=============================================================================
