------------------------------- MODULE GenSession -------------------------------
(* Random sessions: calls (what is called, in which variant), forks, processes started afresh. *)
EXTENDS Session, Json
VARIABLES procs, fresh, hist
vars == <<procs, fresh, hist>>
Pick(S) == RandomElement(S)
Slots == 1..4               (* which of the session's calls *)
Op(k, p, q, c, v) == [k |-> k, p |-> p, q |-> q, c |-> c, v |-> v]
Init == procs = <<0, NoProc, NoProc>> /\ fresh = 0 /\ hist = <<>>
Draw(r) == IF r <= 10 THEN Op("call", Pick(Live(procs)), 0, Pick(Slots), Pick(0..5))
           ELSE IF r <= 12 THEN (LET p == Pick(Live(procs)) IN Op("fork", p, Pick((1..3) \ {p}), 0, 0))
           ELSE Op("fresh", Pick(1..3), 0, 0, 0)
Next == IF Len(hist) < 14
        THEN \E op \in {Draw(Pick(1..13))} :
             IF op.k = "fresh" /\ fresh >= 1 THEN UNCHANGED vars
             ELSE /\ hist' = Append(hist, op)
                  /\ procs' = IF op.k = "fork" THEN SFork(procs, op.p, op.q) ELSE IF op.k = "fresh" THEN SFresh(procs, op.p, 0) ELSE procs
                  /\ fresh' = fresh + (IF op.k = "fresh" THEN 1 ELSE 0)
        ELSE PrintT(<<"BEH", ToJson([ops |-> hist])>>) /\ procs' = <<0, NoProc, NoProc>> /\ fresh' = 0 /\ hist' = <<>>
Spec == Init /\ [][Next]_vars
================================================================================
