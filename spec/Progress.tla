------------------------------ MODULE Progress ------------------------------
(* Timers, named check points, progress bars and tracking helpers as one state *)
(* machine driven by operations.  Times are integers (quarters of a second).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Timers == {"t1", "t2"}
Marks == {"p", "q"}
Bars == {"b1", "b2"}

Fresh == [clock |-> 0,
          timer |-> [t \in Timers |-> [made |-> FALSE, on |-> FALSE, begin |-> 0, last |-> 0]],
          mark  |-> [m \in Marks |-> -1],
          bar   |-> [b \in Bars |-> [made |-> FALSE, started |-> FALSE, total |-> 0, done |-> 0]]]

Nothing == [k |-> "none", v |-> 0, w |-> 0]
Num(v) == [k |-> "num", v |-> v, w |-> 0]
Printed(v) == [k |-> "print", v |-> v, w |-> 0]
Flag(b) == [k |-> "flag", v |-> IF b THEN 1 ELSE 0, w |-> 0]
Refused == [k |-> "err", v |-> 0, w |-> 0]
Shows(c, n) == [k |-> "bar", v |-> c, w |-> n]

Started(s, t) == [s.timer[t] EXCEPT !.begin = IF s.timer[t].on THEN @ ELSE s.clock, !.on = TRUE, !.last = s.clock]

(* may the operation occur at all in this state? *)
Sensible(s, op) ==
  CASE op.o = "tick" -> op.n > 0
    [] op.o = "new" -> ~s.timer[op.id].made
    [] op.o \in {"start", "enter", "exit", "since_start", "since_last", "is_running"} -> s.timer[op.id].made
    [] op.o = "mark" -> TRUE
    [] op.o = "bar" -> ~s.bar[op.id].made
    [] op.o = "bar_start" -> s.bar[op.id].made /\ ~s.bar[op.id].started
    [] op.o = "update" -> s.bar[op.id].made /\ s.bar[op.id].started
    [] OTHER -> FALSE

Apply(s, op) ==
  CASE op.o = "tick" -> [s EXCEPT !.clock = @ + op.n]
    [] op.o = "new" -> LET u == [s EXCEPT !.timer[op.id].made = TRUE] IN
                       IF op.n = 1 THEN [u EXCEPT !.timer[op.id] = Started(u, op.id)] ELSE u
    [] op.o \in {"start", "enter"} -> [s EXCEPT !.timer[op.id] = Started(s, op.id)]
    [] op.o = "exit" -> IF ~s.timer[op.id].on THEN s
                        ELSE [s EXCEPT !.timer[op.id].on = FALSE, !.timer[op.id].last = s.clock]
    [] op.o \in {"since_start", "since_last"} ->
         IF s.timer[op.id].on THEN [s EXCEPT !.timer[op.id].last = s.clock] ELSE s
    [] op.o = "mark" -> [s EXCEPT !.mark[op.id] = s.clock]
    [] op.o = "bar" -> [s EXCEPT !.bar[op.id] = [made |-> TRUE, started |-> op.w = 1, total |-> op.n, done |-> 0]]
    [] op.o = "bar_start" -> [s EXCEPT !.bar[op.id].started = TRUE]
    [] op.o = "update" -> IF op.n > 0 THEN [s EXCEPT !.bar[op.id].done = @ + op.n] ELSE s
    [] OTHER -> s

Result(s, op) ==
  CASE op.o = "since_start" -> IF s.timer[op.id].on THEN Num(s.clock - s.timer[op.id].begin) ELSE Refused
    [] op.o = "since_last" -> IF s.timer[op.id].on THEN Num(s.clock - s.timer[op.id].last) ELSE Refused
    [] op.o = "exit" -> IF s.timer[op.id].on THEN Printed(s.clock - s.timer[op.id].last) ELSE Refused
    [] op.o = "is_running" -> Flag(s.timer[op.id].on)
    [] op.o = "mark" -> IF s.mark[op.id] = -1 THEN Num(0) ELSE Num(s.clock - s.mark[op.id])
    [] op.o = "bar" -> IF op.w = 1 THEN Shows(0, op.n) ELSE Nothing
    [] op.o = "bar_start" -> Shows(0, s.bar[op.id].total)
    [] op.o = "update" -> IF op.n > 0 THEN Shows(s.bar[op.id].done + op.n, s.bar[op.id].total) ELSE Refused
    [] OTHER -> Nothing

Op(o, id, n, w) == [o |-> o, id |-> id, n |-> n, w |-> w]
TimerOps == {Op(o, id, 0, 0) : o \in {"start", "enter", "exit", "since_start", "since_last", "is_running"}, id \in Timers}
            \cup {Op("new", id, n, 0) : id \in Timers, n \in {0, 1}}
            \cup {Op("exit", id, 0, 1) : id \in Timers}          \* leaving by an exception
MarkOps == {Op("mark", m, 0, 0) : m \in Marks}
BarOps(tot, ups) == {Op("bar", b, n, w) : b \in Bars, n \in tot, w \in {0, 1}}
                    \cup {Op("bar_start", b, 0, 0) : b \in Bars}
                    \cup {Op("update", b, n, 0) : b \in Bars, n \in ups}
Ticks(D) == {Op("tick", "", n, 0) : n \in D}

(* ----------------------------------------------------------- tracking helpers *)
(* [n tasks, announced total, skipped first ones, bar shown] -> what is displayed *)
TrackShows(n, tot, skip, nobar) ==
  IF nobar THEN <<>>
  ELSE IF skip = 0 THEN [i \in 1..(n + 1) |-> <<i - 1, tot>>]
  ELSE IF n < skip THEN <<>>
  ELSE [i \in 1..(n - skip + 1) |-> <<i - 1, tot - skip>>]
=============================================================================
