----------------------------- MODULE TraceBoundary -----------------------------
(* recorded boundary generations: out.distinct holds the different plane stacks *)
(* the generators produced, out.by which of them each generator produced         *)
EXTENDS Boundary, Json, IOUtils
VARIABLES tid, stage
vars == <<bdryVars, tid, stage>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[tid]
C == Case.in
RegsOf(c) == IF c.form = "map"
  THEN With(c.map, LAMBDA m : [k \in 1..c.n |-> {p \in Cell(m) : m[p[1]][p[2]] = k - 1}])
  ELSE [k \in 1..c.n |-> Px(c.planes[k])]
InstsOf(c) == IF c.inst = <<>> THEN <<>>
  ELSE With(c.inst, LAMBDA m : With({m[p[1]][p[2]] : p \in Cell(m)} \ {0}, LAMBDA N :
       [i \in 1..Cardinality(N) |->
          LET v == CHOOSE x \in N : Cardinality({y \in N : y < x}) = i - 1
          IN [num |-> v, px |-> {p \in Cell(m) : m[p[1]][p[2]] = v}]]))
TInit == /\ tid \in 1..Len(Cases) /\ stage = "start"
         /\ BdryStart(<<0, 0>>, <<>>, {}, <<>>, 0, [r |-> 1, internal |-> FALSE, thin |-> FALSE])
Begin == /\ stage = "start" /\ stage' = "run"
         /\ shape' = <<C.height, C.w>> /\ regs' = TLCEval(RegsOf(C)) /\ ign' = {C.ignore[i] + 1 : i \in 1..Len(C.ignore)}
         /\ insts' = TLCEval(InstsOf(C)) /\ least' = C.least
         /\ opt' = [r |-> C.radius, internal |-> C.internal, thin |-> C.thin]
         /\ todo' = 1..C.n /\ edge' = [k \in 1..C.n |-> {}]
         /\ UNCHANGED tid
Work == /\ stage = "run" /\ \E k \in todo : (\A j \in todo : k <= j) /\ OneLabel(k) /\ UNCHANGED <<tid, stage>>
PlaneOK(pl, k) == SameShape(pl, Zeros(C.height, C.w)) /\ Px(pl) = edge[k] /\ \A p \in Cell(pl) : pl[p[1]][p[2]] \in {0, 1}
Good == {d \in 1..Len(Case.out.distinct) : Len(Case.out.distinct[d]) = C.n /\ \A k \in 1..C.n : PlaneOK(Case.out.distinct[d][k], k)}
Failed == IF Case.err # "" THEN {"raised"}
          ELSE {Case.out.by[i][1] : i \in {j \in 1..Len(Case.out.by) : Case.out.by[j][2] \notin Good}}
               \cup {Case.out.other[i] : i \in 1..Len(Case.out.other)}
Return == /\ stage = "run" /\ todo = {} /\ stage' = "returned"
          /\ \E F \in {Failed} : IF F = {} THEN PrintT(<<"VERDICT", tid, "ok">>)
                                 ELSE \A c \in F : PrintT(<<"VERDICT", tid, c>>)
          /\ UNCHANGED <<bdryVars, tid>>
TSpec == TInit /\ [][Begin \/ Work \/ Return]_vars
=============================================================================
