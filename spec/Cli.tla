--------------------------------- MODULE Cli ---------------------------------
(* The command-line evaluators: texts are interpreted, categories checked, the *)
(* output folder made, and one evaluator is made, configured and run.          *)
EXTENDS Args, Evaluator
Cmds == {"bsds", "sbd", "reanno", "csraw", "csthin", "cs"}
KindOf(c) == CASE c.cmd \in {"bsds", "sbd", "reanno"} -> c.cmd
               [] c.cmd = "csthin" \/ c.half -> "half"
               [] OTHER -> "cs"
Given(c, f) == \E i \in 1..Len(c.given) : c.given[i] = f
Opt(c, f, default) == IF Given(c, f) THEN c[f] ELSE default
MakeOf(c) == [kind |-> KindOf(c),
              thin |-> CASE c.cmd \in {"sbd", "reanno"} -> ~c.raw [] c.cmd = "csthin" -> TRUE [] c.cmd = "cs" -> c.thin [] OTHER -> FALSE,
              split |-> IF c.cmd = "bsds" /\ ~c.useval THEN "test" ELSE "val",
              gd |-> IF c.cmd = "bsds" THEN 0 ELSE c.gd,
              pf |-> CASE c.cmd = "bsds" -> B(c.flat) [] c.cmd \in {"sbd", "reanno"} -> Opt(c, "suffix", 0) [] OTHER -> 0,
              bare |-> c.bare]
DefaultDist(c) == CASE c.cmd = "bsds" -> 75 [] c.cmd \in {"sbd", "reanno"} -> 200 [] OTHER -> 35
ArgsOf(c) == [mode |-> CASE c.cmd \in {"bsds", "reanno"} -> "none" [] c.preseal -> "pre-seal" [] OTHER -> "post-seal",
              scale |-> CASE c.cmd \in {"bsds", "sbd", "reanno"} -> 100 [] c.cmd = "csthin" -> 50 [] OTHER -> Opt(c, "scale", 50),
              thin |-> CASE c.cmd \in {"bsds", "sbd", "reanno"} -> ~c.raw [] c.cmd = "csthin" -> TRUE [] c.cmd = "cs" -> c.thinning [] OTHER -> FALSE,
              nms |-> c.nms, sens |-> ~c.nonis,
              dist |-> IF c.cmd = "reanno" THEN 75 ELSE Opt(c, "dist", DefaultDist(c)),
              skip |-> FALSE, kill |-> FALSE]
Cats(c) == IF c.cmd = "bsds" THEN [kind |-> "list", v |-> <<0>>]
           ELSE IF Given(c, "cats") THEN ParseCategories(c.cats)
           ELSE [kind |-> "list", v |-> [i \in 1..NumCats(KindOf(c)) |-> i]]
InRange(c) == c.cmd = "bsds" \/ \A i \in 1..Len(Cats(c).v) : Cats(c).v[i] \in 1..NumCats(KindOf(c))
Thr(c) == IF Given(c, "thr") THEN ParseThresholds(c.thr) ELSE [kind |-> "number", v |-> <<99>>]

(* ------------------------------------------------------------- as a machine *)
VARIABLES call, stage, written, eval, plan
cliVars == <<call, stage, written, eval, plan>>
NoPlan == [cats |-> <<>>, thr |-> <<>>]
NoEval == Made([kind |-> "sbd", thin |-> FALSE, split |-> "val", gd |-> 0, pf |-> 0, bare |-> TRUE])
CliStart(c) == call = c /\ stage = "categories" /\ written = "nothing" /\ eval = NoEval /\ plan = NoPlan
ReadCategories == /\ stage = "categories"
                  /\ stage' = IF Cats(call).kind = "malformed" THEN "refused" ELSE IF ~InRange(call) THEN "rejected" ELSE "thresholds"
                  /\ plan' = IF Cats(call).kind # "malformed" /\ InRange(call) THEN [plan EXCEPT !.cats = Cats(call).v] ELSE plan
                  /\ UNCHANGED <<call, written, eval>>
ReadThresholds == /\ stage = "thresholds"
                  /\ stage' = IF Thr(call).kind = "malformed" THEN "refused" ELSE "output"
                  /\ plan' = IF Thr(call).kind # "malformed" THEN [plan EXCEPT !.thr = Meaning(Thr(call))] ELSE plan
                  /\ UNCHANGED <<call, written, eval>>
OpenOutput == /\ stage = "output" /\ stage' = "configure"
              /\ written' = IF Given(call, "out") THEN "given" ELSE "stamped"
              /\ UNCHANGED <<call, eval, plan>>
Prepared(c) == Made(MakeOf(c))
ConfigOp(c) == [o |-> "configure", given |-> <<"mode", "scale", "thin", "nms", "sens", "dist", "skip", "kill">>] @@ ArgsOf(c)
Configure == /\ stage = "configure"
             /\ IF Prepared(call).names = <<>> \/ Fails(Prepared(call), ConfigOp(call))
                THEN stage' = "rejected" /\ UNCHANGED eval
                ELSE stage' = "run" /\ eval' = Apply(Prepared(call), ConfigOp(call))
             /\ UNCHANGED <<call, written, plan>>
RunOp(p, c) == [o |-> "run", how |-> "list", list |-> p.cats, flat |-> c.flat]
Evaluate == /\ stage = "run" /\ stage' = IF RunRefused(eval, RunOp(plan, call)) THEN "rejected" ELSE "done"
            /\ UNCHANGED <<call, written, eval, plan>>
CliNext == ReadCategories \/ ReadThresholds \/ OpenOutput \/ Configure \/ Evaluate

(* counts at one threshold, and at the best of several: above 200/255 the only  *)
(* change is in the unmatched detections of the block                          *)
IsHi(t) == t * 51 > U * 40
CountsAt(e, c, s, cat, t) == Counts(View(e, [flat |-> c.flat]), [hi |-> IsHi(t)] @@ e.params, s, cat)
(* matches do not depend on the threshold, so the best one has the fewest detections *)
BestOver(e, c, s, cat, thr) ==
  LET all == {CountsAt(e, c, s, cat, thr[i]) : i \in 1..Len(thr)}
  IN CHOOSE n \in all : \A m \in all : n.sp[1] <= m.sp[1]
=============================================================================
