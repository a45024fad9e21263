------------------------------ MODULE TraceCli -------------------------------
EXTENDS Cli, Json, IOUtils
VARIABLES tid, pc
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Range(s) == {s[j] : j \in 1..Len(s)}
Between(v, lo, hi) == v >= lo - 15 /\ v <= hi + 15
RecOK(l, n) == Between(l.rec * 10, Rate(n.cr[1], n.sr), Rate(n.cr[2], n.sr))
PrecOK(l, n) == Between(l.prec * 10, Rate(n.cp[1], n.sp[2]), Rate(n.cp[2], n.sp[1]))
LineOK(l, n) == RecOK(l, n) /\ PrecOK(l, n) /\ Near(l.f1 * 10, FScore(l.prec * 10, l.rec * 10), 40)
SumOf(k, f(_)) == SumSeq([i \in 1..Len(k) |-> f(k[i])])
Pooled(k) == [cr |-> <<SumOf(k, LAMBDA n : n.cr[1]), SumOf(k, LAMBDA n : n.cr[2])>>, sr |-> SumOf(k, LAMBDA n : n.sr),
              cp |-> <<SumOf(k, LAMBDA n : n.cp[1]), SumOf(k, LAMBDA n : n.cp[2])>>, sp |-> <<SumOf(k, LAMBDA n : n.sp[1]), SumOf(k, LAMBDA n : n.sp[2])>>]
(* the two levels there are, computed once per table *)
LevelCounts(cat) == [h \in BOOLEAN |-> [j \in 1..Len(eval.names) |-> CountsAt(eval, call, eval.names[j], cat, IF h THEN U - 1 ELSE U \div 2)]]
TableOK(x, thr) ==
  Clause("samples", [j \in 1..Len(x.lines) |-> x.lines[j].name] = eval.names)
  \cup Clause("thresholds", Len(x.thr) = Len(thr) /\ \A i \in 1..Len(thr) : Abs(x.thr[i].t * 10 - thr[i]) <= 12)
  \cup (IF Len(x.lines) # Len(eval.names) \/ Len(x.thr) # Len(thr) THEN {}
        ELSE UNION {UNION {Clause("sample-scores", LineOK(x.lines[j], BestOver(eval, call, eval.names[j], x.cat, thr))) : j \in 1..Len(x.lines)}
             \cup UNION {UNION {Clause("threshold-scores", \A i \in 1..Len(thr) : \E h \in {IsHi(thr[i])} : LineOK(x.thr[i], p[h]))
                         : p \in {[h \in BOOLEAN |-> Pooled(lv[h])]}} : lv \in {TLCEval(LevelCounts(x.cat))}}
             : z \in {0}})
O == Case.out
Outcome == IF Case.err # "" THEN {"raised"}
  ELSE CASE stage = "refused" -> Clause("malformed-raised", ~O.raised) \cup Clause("malformed-writes-nothing", O.fresh = 0 /\ O.tables = <<>>)
         [] stage = "rejected" -> Clause("should-raise", O.raised) \cup Clause("rejected-evaluates-nothing", O.tables = <<>>)
                                  \cup (IF written = "nothing" THEN Clause("rejected-writes-nothing", O.fresh = 0) ELSE {})
         [] OTHER -> IF O.raised THEN {"unexpected-failure"} ELSE
              Clause("output-folder", O.where = written)
              \cup Clause("workers", O.nproc = 0 \/ O.nproc = Opt(call, "nproc", 4))
              \cup Clause("categories", Range([i \in 1..Len(O.tables) |-> O.tables[i].cat]) = Range(plan.cats))
              \cup UNION {UNION {TableOK(O.tables[i], thr) : i \in 1..Len(O.tables)} : thr \in {plan.thr}}
(* folder listings have no order of their own *)
ByListing(st) == IF st.kind = "bsds" /\ st.names # <<>> /\ O.tables # <<>>
                 THEN LET obs == [j \in 1..Len(O.tables[1].lines) |-> O.tables[1].lines[j].name]
                      IN IF Len(obs) = Len(st.names) /\ Range(obs) = Range(st.names) THEN [st EXCEPT !.names = obs] ELSE st
                 ELSE st
TInit == tid \in 1..Len(Cases) /\ pc = "go" /\ CliStart(Cases[tid].in)
Run == pc = "go" /\ CliNext /\ UNCHANGED <<tid, pc>>
Adopt == pc = "go" /\ stage = "run" /\ Case.err = "" /\ ByListing(eval) # eval /\ eval' = ByListing(eval) /\ UNCHANGED <<tid, pc, call, stage, written, plan>>
Step == IF pc = "go" /\ stage = "run" /\ Case.err = "" /\ ByListing(eval) # eval THEN Adopt ELSE Run
Return == /\ pc = "go" /\ stage \in {"refused", "rejected", "done"} /\ pc' = "end"
          /\ \E f \in {Outcome} : IF f = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in f : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<tid, call, stage, written, eval, plan>>
TSpec == TInit /\ [][Step \/ Return]_<<tid, pc, call, stage, written, eval, plan>>
=============================================================================
