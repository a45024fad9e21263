---------------------------- MODULE GenEvaluator ----------------------------
EXTENDS Evaluator, Json
CONSTANTS Focus
VARIABLES e, hist, opt
vars == <<e, hist, opt>>
Pick(S) == RandomElement(S)
RandOpt(k) == [kind |-> k, thin |-> k # "bsds" /\ Pick(BOOLEAN), split |-> Pick({"val", "val", "test", "train"}), gd |-> IF k = "bsds" THEN 0 ELSE Pick({0, 0, 1}),
               pf |-> IF k = "bsds" THEN 0 ELSE Pick(0..1), bare |-> Pick(1..5) = 1]
Fields == <<"mode", "scale", "thin", "nms", "sens", "dist", "skip", "kill">>
RECURSIVE Some(_)
Some(s) == IF s = <<>> THEN <<>> ELSE (IF Pick(1..3) = 1 THEN <<>> ELSE <<Head(s)>>) \o Some(Tail(s))
Op(o) == [o |-> o, given |-> <<>>, mode |-> "none", scale |-> 100, thin |-> FALSE, nms |-> FALSE, sens |-> FALSE, dist |-> 200, skip |-> FALSE,
          kill |-> FALSE, how |-> "list", list |-> <<>>, file |-> "a", nproc |-> 1, flat |-> FALSE, form |-> 0, pf |-> 0]
CfgOp(k) == [Op("configure") EXCEPT !.given = Some(Fields), !.mode = Pick({"none", "pre-seal", "post-seal", "custom"}),
           !.scale = <<50, 50, 50, 100, 100, 100, 100, 100, 100, 0, 150, 101, -50>>[Pick(1..13)], !.thin = Pick(BOOLEAN), !.nms = Pick({TRUE, FALSE, FALSE}), !.sens = Pick(BOOLEAN),
           !.dist = Pick({35, 75, 200, 300}), !.skip = Pick(BOOLEAN), !.kill = Pick(BOOLEAN)]
NameLists == {<<1>>, <<2, 1>>, <<3, 1, 2>>, <<2, 3>>, <<1, 2, 3>>, <<3>>, <<2, 2, 1>>, <<1, 4>>, <<5, 2>>, <<>>}
GoodLists == {<<1>>, <<2, 1>>, <<3, 1, 2>>, <<2, 3>>, <<3>>}
NameOp(k) == [Op("names") EXCEPT !.how = Pick({"list", "list", "file", "both", "default", "tuple"}), !.list = IF Pick(1..3) = 1 THEN Pick(NameLists) ELSE Pick(GoodLists),
            !.file = Pick({"a", "b", "b", "c", "empty", "missing"})]
CatLists(k) == IF k = "otf" THEN {<<12>>, <<14>>, <<1>>, <<14, 12>>, <<12, 2, 14>>, <<19, 12>>, <<0>>, <<20>>, <<12, 20>>, <<-1>>, <<>>}
               ELSE {<<1>>, <<2>>, <<3>>, <<4, 2>>, <<3, 1>>, <<2, 3, 4>>, <<7, 15>>, <<19>>, <<19, 8>>, <<0>>, <<21>>, <<1, 21>>, <<-1>>, <<>>}
RunOp(k) == [Op("run") EXCEPT !.how = Pick(IF Focus = "pairing" THEN {"list", "int", "list", "direct", "none", "tuple"} ELSE {"list", "int", "direct"}),
            !.list = Pick(CatLists(k)), !.nproc = IF Pick(1..4) = 1 THEN 2 ELSE 1, !.flat = Pick(BOOLEAN), !.form = Pick(0..3)]
SufOp(k) == [Op("suffix") EXCEPT !.pf = Pick(0..1)]
Draw(x, k) == CASE x = "configure" -> CfgOp(k) [] x = "names" -> NameOp(k) [] x = "suffix" -> SufOp(k)
               [] OTHER -> With(RunOp(k), LAMBDA r : IF r.how \in {"int", "direct"} /\ Len(r.list) # 1 THEN [r EXCEPT !.list = <<12>>]
                                                     ELSE IF r.how = "none" THEN [r EXCEPT !.nproc = 1] ELSE r)
(* a first call that lets runs succeed, when pairing is the interest *)
First(k) == [Op("configure") EXCEPT !.given = <<"mode", "sens", "scale">>, !.mode = Pick({"post-seal", "pre-seal", "none"}), !.sens = FALSE, !.scale = 100]
Kinds1 == IF Focus = "pairing" THEN {"configure", "names", "names1", "run", "run1", "run2", "suffix"} ELSE {"configure", "configure1", "configure2", "configure3", "names", "run", "run1"}
Alias(x) == CASE x \in {"configure1", "configure2", "configure3"} -> "configure" [] x \in {"run1", "run2"} -> "run" [] x = "names1" -> "names" [] OTHER -> x
Start(o) == IF MadeOK(o) THEN Made(o) ELSE Made([o EXCEPT !.split = "val"])
Init == \E o \in {RandOpt(k) : k \in Kinds} : opt = o /\ e = Start(o) /\ hist = <<>>
Length == IF ~MadeOK(opt) THEN 0 ELSE IF Focus = "pairing" THEN 7 ELSE 9
Next == IF Len(hist) < Length
        THEN \E op \in {IF Len(hist) = 0 /\ (Focus = "pairing" \/ Pick(1..2) = 1) THEN First(opt.kind)
                        ELSE IF Len(hist) = Length - 1 THEN Draw("run", opt.kind) ELSE Draw(Alias(Pick(Kinds1)), opt.kind)} :
               IF Sensible(e, op) THEN e' = Apply(e, op) /\ hist' = Append(hist, op) /\ UNCHANGED opt
               ELSE UNCHANGED vars
        ELSE /\ PrintT(<<"BEH", ToJson([opt |-> opt, ops |-> hist])>>)
             /\ \E o \in {RandOpt(Pick(Kinds))} : opt' = o /\ e' = Start(o) /\ hist' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
