----------------------------- MODULE TraceResults -----------------------------
EXTENDS Results, Datasets, Json, IOUtils
VARIABLES tid, step, bad
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
Clause(n, b) == IF b THEN {} ELSE {n}
Range(s) == {s[j] : j \in 1..Len(s)}
(* runs of the data sets' own evaluators use the names of the data set *)
Norm(op) == IF op.o = "run" /\ op.data # "" THEN [op EXCEPT !.classes = IF op.data = "sbd" THEN SbdNames ELSE CityscapesNames] ELSE op
Ops == [k \in 1..Len(Case.out.ops) |-> Norm(Case.out.ops[k])]
RowOK(row, seen) == /\ seen.name = row.name /\ Len(seen.v) = Len(row.cells)
                    /\ \A k \in 1..Len(row.cells) : seen.v[k] \in Texts(row.cells[k])
FileOK(rows, seen) == Len(seen) = Len(rows) /\ \A i \in 1..Len(rows) : RowOK(rows[i], seen[i])
(* the driver lists every score file in the folder after the operation *)
DiskOK(op, fs) ==
  UNION {UNION {LET at(p) == {i \in 1..Len(fs) : fs[i].path = p} IN
     Clause("file-missing", \A p \in DOMAIN d : at(p) # {})
     \cup UNION {Clause("file-content", \A i \in at(p) : FileOK(d[p], fs[i].rows)) : p \in w}
     \cup UNION {Clause("other-file-changed", \A i \in at(p) : FileOK(d[p], fs[i].rows)) : p \in DOMAIN d \ w}
     \cup Clause("unexpected-scores", \A i \in 1..Len(fs) : fs[i].path \in DOMAIN d)
  : w \in {DOMAIN Writes(op)}} : d \in {TLCEval(Writes(op) @@ disk)}}
TableOK(op, r) ==
  LET want == ClassTable(op)
      sums == SummaryRow(op)
      cols(t, m) == {i \in 1..Len(t) : t[i].head = m}
  IN IF ~op.save THEN {} ELSE
     Clause("class-names", r.names = want.names)
     \cup Clause("class-columns", \A m \in Range(op.print) \cap DOMAIN want.cols : cols(r.classes, m) # {})
     \cup UNION {UNION {Clause("class-percentages", Len(r.classes[i].cells) = Len(want.names)
                               /\ \A j \in 1..Len(want.names) : r.classes[i].cells[j] \in want.cols[m][j]) : i \in cols(r.classes, m)} : m \in DOMAIN want.cols}
     \cup Clause("mean-columns", \A m \in Range(op.print) \cap DOMAIN sums : cols(r.means, m) # {})
     \cup UNION {UNION {Clause("mean-percentages", Len(r.means[i].cells) = 1 /\ r.means[i].cells[1] \in sums[m]) : i \in cols(r.means, m)} : m \in DOMAIN sums}
CurveOK(pts, d, a) == LET c == Curve(d, a) IN
  Len(pts) = Len(c) /\ \A i \in 1..Len(c) : \E w \in Values(c[i].rec), z \in Values(c[i].prec) : pts[i] = <<w, z>>
PlotOK(op, r) ==
  LET named(n) == {i \in 1..Len(op.algs) : op.algs[i].name = n}
      k == Len(op.algs)
      ods(i) == One(Overall(disk, op.algs[i])[4])
  IN IF r.failed # "" THEN {"plot-raised"} ELSE
     Clause("human-entry", op.human = r.human)
     \cup Clause("legend-entries", Len(r.legend) = k /\ Range([i \in 1..Len(r.legend) |-> r.legend[i].name]) = Range([i \in 1..k |-> op.algs[i].name]))
     \cup Clause("legend-F", \A i \in 1..Len(r.legend) : \A j \in named(r.legend[i].name) : r.legend[i].f \in Shown(Overall(disk, op.algs[j])[4], 10000))
     \cup Clause("legend-order", \A i, j \in 1..Len(r.legend) : i < j => \A a \in named(r.legend[i].name), b \in named(r.legend[j].name) : ods(a) >= ods(b) - 1)
     \cup Clause("curves", \A i \in 1..Len(r.legend) : \A j \in named(r.legend[i].name) : CurveOK(r.legend[i].curve, disk, op.algs[j]))
     \cup Clause("reported-entries", Len(r.lines) = k /\ \A i \in 1..k : \E j \in 1..Len(r.lines) : r.lines[j].name = op.algs[i].name)
     \cup Clause("reported-scores", \A i \in 1..Len(r.lines) : \A j \in named(r.lines[i].name) : \E o \in {Overall(disk, op.algs[j])} :
            r.lines[i].ods \in Shown(o[4], 1000) /\ r.lines[i].ois \in Shown(o[7], 1000) /\ r.lines[i].ap \in Shown(o[8], 1000))
     \cup Clause("figure-saved", op.file => r.saved)
Judge(op, r) == UNION {DiskOK(op, r.files),
                       IF op.o = "run" THEN TableOK(op, r.table) ELSE {},
                       IF op.o = "plot" THEN PlotOK(op, r.plot) ELSE {}}
TInit == tid \in 1..Len(Cases) /\ step = 0 /\ bad = {} /\ Start
Go == /\ Case.err = "" /\ step < Len(Ops)
      /\ step' = step + 1 /\ Do(Ops[step + 1])
      /\ bad' = bad \cup Judge(Ops[step + 1], Case.out.seen[step + 1])
      /\ UNCHANGED tid
Return == /\ (IF Case.err # "" THEN step = 0 ELSE step = Len(Ops))
          /\ step' = step + 1 /\ UNCHANGED <<tid, bad, disk>>
          /\ LET f == IF Case.err # "" THEN {"raised"} ELSE bad IN
             IF f = {} THEN PrintT(<<"VERDICT", tid, "ok">>) ELSE \A c \in f : PrintT(<<"VERDICT", tid, c>>)
TSpec == TInit /\ [][Go \/ Return]_<<tid, step, bad, disk>>
=============================================================================
