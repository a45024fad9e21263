------------------------------ MODULE MCBoundary ------------------------------
(* every label map of one size, two labels and an ignored one, workers in any order *)
EXTENDS Boundary
CONSTANTS H, W, R, Instances
vars == bdryVars
P == (1..H) \X (1..W)
Init == \E m \in [P -> 0..2] : \E int \in BOOLEAN, th \in {FALSE, TRUE} : \E split \in (IF Instances THEN 1..W ELSE {0}) :
          LET rg == [k \in 1..3 |-> {p \in P : m[p] = k - 1}]
              \* label 1's pixels split in two instances at a column
              ins == IF ~Instances THEN <<>>
                     ELSE <<[num |-> 1000, px |-> {p \in rg[2] : p[2] <= split}], [num |-> 1001, px |-> {p \in rg[2] : p[2] > split}]>>
          IN BdryStart(<<H, W>>, rg, {3}, ins, IF Instances THEN 1 ELSE 0, [r |-> R, internal |-> int, thin |-> th])
Next == \E k \in todo : OneLabel(k)
Spec == Init /\ [][Next]_vars
Finished(k) == k \notin todo
IgnoredEmpty == \A k \in ign : edge[k] = {}
AbsentEmpty == \A k \in 1..Len(regs) : regs[k] = {} => edge[k] = {}
FullNone == \A k \in 1..Len(regs) : (regs[k] \cup Ignored = P /\ insts = <<>>) => edge[k] = {}
(* whatever the order of labels *)
OrderFree == \A k \in 1..Len(regs) : Finished(k) => edge[k] = EdgeOf(k)
Contains == \A k \in 1..Len(regs) : (Finished(k) /\ ~opt.thin /\ k \notin ign /\ regs[k] # {}) =>
              Outline(regs[k], Ignored, H, W, opt.r, opt.internal) \subseteq edge[k]
InternalInside == opt.internal => \A k \in 1..Len(regs) : edge[k] \subseteq (regs[k] \cup Ignored \cup UNION {insts[i].px : i \in 1..Len(insts)})
(* two labels filling an image without ignored pixels have each other's boundary when nothing is thinned *)
Mutual == (todo = {} /\ regs[3] = {} /\ insts = <<>> /\ ~opt.internal /\ ~opt.thin /\ regs[1] # {} /\ regs[2] # {})
          => edge[1] = edge[2]
(* a pixel far from any change of label is no boundary *)
OnlyNear == \A k \in 1..Len(regs) : \A p \in edge[k] :
   opt.internal \/ opt.thin \/ insts # <<>> \/ \E q \in P : (q \in regs[k]) # (p \in regs[k]) /\ D2(p, q) <= R * R
=============================================================================
