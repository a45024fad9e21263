----------------------------- MODULE MCEvaluator -----------------------------
(* every configuration history of two calls (plus naming and runs) for every   *)
(* evaluator, over a coarse alphabet                                            *)
EXTENDS Evaluator
VARIABLES e, last, ok
vars == <<e, last, ok>>
CONSTANTS Dists, Scales
GivenSets == {<<>>, <<"mode">>, <<"mode", "sens">>, <<"mode", "sens", "dist", "scale">>, <<"mode", "kill", "skip", "sens">>}
Cfgs == [o : {"configure"}, given : GivenSets, mode : {"none", "pre-seal", "post-seal"}, scale : Scales, thin : {FALSE}, nms : {FALSE},
         sens : BOOLEAN, dist : Dists, skip : BOOLEAN, kill : BOOLEAN]
NoCfg == [o |-> "none"]
Namings == [o : {"names"}, how : {"list", "file", "default"}, list : {<<2, 1>>}, file : {"a", "empty"}]
Opts == [kind : Kinds, thin : BOOLEAN, split : {"val", "test"}, gd : {0}, pf : {0}, bare : BOOLEAN]
Init == \E opt \in Opts : e = Made(opt) /\ last = NoCfg /\ ok = TRUE
ArgSets == [k \in Kinds |-> {Args(k, op) : op \in Cfgs}]
AllArgs == <<"mode", "scale", "thin", "nms", "sens", "dist", "skip", "kill">>
Configure == \E a \in ArgSets[e.kind] : \E op \in {[o |-> "configure", given |-> AllArgs] @@ a} :
               /\ e' = Apply(e, op) /\ ok' = ~Fails(e, op)
               /\ last' = IF Fails(e, op) THEN last ELSE a
Naming == \E op \in Namings : Sensible(e, op) /\ e' = Apply(e, op) /\ ok' = ~Fails(e, op) /\ UNCHANGED last
Next == Configure \/ Naming
Spec == Init /\ [][Next]_vars
(* the settings are a function of the constructor and the last successful call *)
LastCallDecides == e.params = IF last = NoCfg THEN Unset ELSE Settings(e.kind, last)
Successful == e.params # Unset
ModeTable == (last # NoCfg) =>
  /\ (e.kind \in {"reanno", "bsds"} => ~e.params.kill /\ ~e.params.skip)
  /\ (e.kind = "half" => e.params.scale = 100)
  /\ (e.kind \notin {"reanno", "bsds"} /\ last.mode = "pre-seal" =>
        e.params.dist = 200 /\ e.params.kill /\ e.params.skip /\ ~e.params.sens)
  /\ (e.kind \notin {"reanno", "bsds"} /\ last.mode = "post-seal" =>
        /\ e.params.kill = ~e.params.sens /\ e.params.skip = ~e.params.sens /\ e.params.sens = last.sens
        /\ e.params.dist = IF e.kind = "sbd" THEN 200 ELSE last.dist)
  /\ (e.kind \notin {"reanno", "bsds"} /\ last.mode = "none" => e.params.kill = last.kill /\ e.params.skip = last.skip /\ e.params.dist = last.dist)
  /\ GoodScale(e.params.scale)
RefusalKeeps == [][~ok' => UNCHANGED e]_vars
NamesKept == [][(e'.names # e.names) => (e'.params = e.params)]_vars
(* each listed sample once per requested category, in order *)
RunComplete == Successful => \A how \in {"none", "list"} :
  LET op == [o |-> "run", how |-> how, list |-> <<3, 1>>, flat |-> FALSE] IN
  ~RunRefused(e, op) => \A i \in 1..Len(Table(e, op)) : [j \in 1..Len(e.names) |-> Table(e, op)[i].lines[j].name] = e.names
(* the ground-truth size tells file variants, samples and categories apart *)
Codes == \A k \in {"sbd", "cs", "half", "reanno"} : \A c \in 1..NumCats(k), s1, s2 \in 1..3, t1, t2, n1, n2 \in BOOLEAN :
  LET x(t, n, s) == GtSize([kind |-> k, thin |-> t, split |-> "val", gd |-> 0], s, c, n)
  IN (x(t1, n1, s1) = x(t2, n2, s2) /\ x(t1, n1, s1) # 0) => (s1 = s2 /\ t1 = t2 /\ n1 = n2)
(* the counting formulas above agree with the boundary rule on a small square *)
Sq == [y \in 1..16 |-> [x \in 1..16 |-> IF y \in 5..12 /\ x \in 5..12 THEN 1 ELSE 0]]
Near2(S, p, r) == \E q \in S : D2(p, q) <= r * r
RingOf(r) == {p \in Cell(Sq) : IF p \in Px(Sq) THEN Near2(Cell(Sq) \ Px(Sq), p, r) ELSE Near2(Px(Sq), p, r)}
RingFormula == \A r \in 1..2 : Cardinality(RingOf(r)) = Ring(8, r)
HalfSq == {p \in Px(Sq) : p[2] <= 8}
DivideFormula == \A r \in 1..2 :
  Cardinality({p \in Cell(Sq) : IF p \in HalfSq THEN Near2(Cell(Sq) \ HalfSq, p, r) ELSE Near2(HalfSq, p, r)}
              \cup {p \in Cell(Sq) : IF p \in Px(Sq) \ HalfSq THEN Near2(Cell(Sq) \ (Px(Sq) \ HalfSq), p, r) ELSE Near2(Px(Sq) \ HalfSq, p, r)}
              \cup RingOf(r)) = Ring(8, r) + Divide(8, r)
ASSUME Codes
ASSUME RingFormula
ASSUME DivideFormula
=============================================================================
