--------------------------- MODULE TraceEvaluator ---------------------------
EXTENDS Evaluator, Fixed, Json, IOUtils
VARIABLES tid, i, e, bad
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Opt == Case.in.opt
Ops == Case.in.ops
Range(s) == {s[j] : j \in 1..Len(s)}
Bag(s) == [x \in Range(s) |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
(* folder listings have no order of their own: the first kind adopts the observed one *)
Adopt(st, obs, free) == IF free /\ Bag(st.names) = Bag(obs) THEN [st EXCEPT !.names = obs] ELSE st
N == IF Case.err # "" \/ ~Case.out.made THEN 0 ELSE Len(Ops)
TInit == /\ tid \in 1..Len(Cases) /\ i = 0
         /\ \E c \in {Cases[tid]} :
            \E st \in {Made([c.in.opt EXCEPT !.split = IF MadeOK(c.in.opt) THEN c.in.opt.split ELSE "val"])} :
              IF c.err # "" THEN e = st /\ bad = {}
              ELSE /\ e = IF c.out.made THEN Adopt(st, c.out.names, c.in.opt.kind = "bsds") ELSE st
                   /\ bad = Clause("unknown-split-refused", c.out.made = MadeOK(c.in.opt))
                            \cup (IF c.out.made /\ MadeOK(c.in.opt) THEN Clause("sample-list", (Adopt(st, c.out.names, c.in.opt.kind = "bsds")).names = c.out.names) ELSE {})
Settled(obs, p, k) ==
  /\ obs.scale = p.scale /\ obs.thin = p.thin /\ obs.nms = p.nms /\ obs.dist = p.dist
  /\ (Multi(k) => obs.kill = p.kill /\ obs.skip = p.skip /\ obs.classes = NumCats(k))
OtfSettled(obs, st) == obs.radius = (IF st.thin THEN 1 ELSE 2) /\ obs.ignore = <<2, 3>>
(* scores in millionths against counts *)
Between(v, lo, hi) == v >= lo - 15 /\ v <= hi + 15
RecOK(l, n) == Between(l.rec * 10, Rate(n.cr[1], n.sr), Rate(n.cr[2], n.sr))
PrecOK(l, n) == Between(l.prec * 10, Rate(n.cp[1], n.sp[2]), Rate(n.cp[2], n.sp[1]))
F1OK(l) == Near(l.f1 * 10, FScore(l.prec * 10, l.rec * 10), 40)
LineOK(l, n) == RecOK(l, n) /\ PrecOK(l, n) /\ F1OK(l)
Sum(t, f(_)) == SumSeq([j \in 1..Len(t.lines) |-> f(t.lines[j].n)])
Both(t, f(_)) == <<Sum(t, LAMBDA n : f(n)[1]), Sum(t, LAMBDA n : f(n)[2])>>
OverallOK(r, t) ==
  \E n \in {[cr |-> Both(t, LAMBDA m : m.cr), sr |-> Sum(t, LAMBDA m : m.sr), cp |-> Both(t, LAMBDA m : m.cp), sp |-> Both(t, LAMBDA m : m.sp)]} :
     RecOK(r, n) /\ PrecOK(r, n)
RunOK(o, st, op) ==
  IF RunRefused(st, op) THEN {}
  ELSE UNION {
     Clause("categories-evaluated", Range([j \in 1..Len(o.tables) |-> o.tables[j].cat]) = Range([j \in 1..Len(tb) |-> tb[j].cat]) /\ Len(o.tables) = Len(tb))
     \cup UNION {UNION {
        IF t.cat # x.cat THEN {}
        ELSE Clause("samples-once-in-order", [j \in 1..Len(x.lines) |-> x.lines[j].name] = [j \in 1..Len(t.lines) |-> t.lines[j].name])
             \cup (IF Len(x.lines) # Len(t.lines) THEN {} ELSE
                   UNION {Clause("own-files", LineOK(x.lines[j], t.lines[j].n)) : j \in 1..Len(t.lines)}
                   \cup Clause("overall", OverallOK(x.overall, t)))
        : t \in Range(tb)} : x \in Range(o.tables)}
     : tb \in {Table(st, op)}}
Step == /\ i < N
        /\ \E op \in {Ops[i + 1]} : \E o \in {Case.out.res[i + 1]} : \E f \in {Fails(e, op)} :
           \E after \in {Adopt(Apply(e, op), o.names, e.kind = "bsds" /\ op.o = "names" /\ op.how = "default")} :
           /\ e' = after
           /\ bad' = bad \cup Clause((IF f THEN "accepted-" ELSE "refused-") \o op.o, o.failed = f)
                     \cup (IF f # o.failed THEN {} ELSE
                        Clause("settings", o.set = (after.params # Unset) /\ (o.set => Settled(o.params, after.params, after.kind)))
                        \cup (IF o.set /\ after.kind = "otf" THEN Clause("on-the-fly-settings", OtfSettled(o.params, after)) ELSE {})
                        \cup Clause("sample-list", o.names = after.names)
                        \cup (IF op.o = "run" /\ ~f THEN RunOK(o, e, op) ELSE {}))
        /\ i' = i + 1 /\ UNCHANGED tid
Failed == IF Case.err # "" THEN {"raised"} ELSE bad
Return == /\ i = N /\ i' = N + 1
          /\ IF Failed = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in Failed : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<tid, e, bad>>
TSpec == TInit /\ [][Step \/ Return]_<<tid, i, e, bad>>
=============================================================================
