-------------------------------- MODULE MCCli --------------------------------
EXTENDS Cli
ThrTexts == {<<"5">>, <<"[", ".", "5", "]">>, <<"[", "1", ",", " ", ".", "2", "]">>, <<".", "5">>, <<"[", "]">>, <<"[", ".", "5">>}
CatTexts == {<<"3">>, <<"[", "2", ",", "1", "9", "]">>, <<"2", "0">>, <<"2", "1">>, <<"0">>, <<"[", "]">>, <<"x">>}
Givens == {<<>>, <<"cats">>, <<"thr", "out">>, <<"cats", "thr">>, <<"cats", "thr", "out", "dist", "scale", "suffix">>}
Calls == [cmd : Cmds, given : Givens, cats : CatTexts, thr : ThrTexts, raw : BOOLEAN, useval : {FALSE}, flat : BOOLEAN, preseal : BOOLEAN, nonis : BOOLEAN,
          nms : {FALSE}, dist : {35}, scale : {100}, half : {FALSE}, thin : {TRUE}, thinning : {FALSE}, suffix : {1}, gd : {0}, bare : {FALSE}]
         \cup
         [cmd : {"csraw", "cs"}, given : {<<"cats">>, <<"cats", "thr", "scale">>}, cats : {<<"3">>}, thr : {<<"5">>}, raw : {FALSE}, useval : {FALSE}, flat : {FALSE},
          preseal : BOOLEAN, nonis : BOOLEAN, nms : BOOLEAN, dist : {35}, scale : {0, 50, 100}, half : BOOLEAN, thin : BOOLEAN, thinning : BOOLEAN, suffix : {0},
          gd : 0..1, bare : BOOLEAN]
Init == \E c \in Calls : CliStart(c)
Spec == Init /\ [][CliNext]_cliVars
Ended == stage \in {"refused", "rejected", "done"}
(* nothing is written unless both texts are understood and the categories exist *)
MalformedWritesNothing == stage = "refused" => written = "nothing" /\ eval = NoEval
WrittenMeansUnderstood == written # "nothing" => Cats(call).kind # "malformed" /\ Thr(call).kind # "malformed" /\ InRange(call)
OutputWhereAsked == stage = "done" => written = (IF Given(call, "out") THEN "given" ELSE "stamped")
(* options reach the evaluation *)
OptionsArrive == stage = "done" =>
  /\ (call.cmd # "bsds" => eval.params.sens = (~call.nonis /\ ~(call.preseal /\ call.cmd = "sbd")))
  /\ eval.params.nms = call.nms
  /\ (call.cmd \in {"bsds", "sbd", "reanno"} => eval.params.thin = ~call.raw)
  /\ (call.cmd \in {"sbd", "reanno"} => eval.thin = eval.params.thin)
  /\ (call.cmd \in {"csraw", "cs"} /\ ~call.preseal /\ Given(call, "dist") => eval.params.dist = call.dist)
  /\ (call.cmd \in {"csthin", "csraw"} => eval.thin = (call.cmd = "csthin"))
  /\ (eval.kind = "half" <=> call.cmd = "csthin" \/ (call.half /\ call.cmd \in {"csraw", "cs"}))
  /\ eval.gd = (IF call.cmd = "bsds" THEN 0 ELSE call.gd)
Progress == [][stage' # stage]_cliVars
Finishes == <>Ended
(* a stronger threshold only removes detections *)
HiIsFewer == \A k \in {"sbd", "cs"}, t \in BOOLEAN, s \in 1..3, c \in 1..3 :
  LET e == [Made([kind |-> k, thin |-> FALSE, split |-> "val", gd |-> 0, pf |-> 0, bare |-> FALSE]) EXCEPT
              !.params = [scale |-> 100, thin |-> t, nms |-> FALSE, dist |-> 75, kill |-> FALSE, skip |-> FALSE, sens |-> FALSE]]
      lo == CountsAt(e, [flat |-> FALSE], s, c, U \div 2)  hi == CountsAt(e, [flat |-> FALSE], s, c, U - 1)
  IN lo.cr = hi.cr /\ lo.sr = hi.sr /\ (~t => hi.sp[1] <= lo.sp[1])
ASSUME HiIsFewer
=============================================================================
