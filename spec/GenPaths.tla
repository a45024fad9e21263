------------------------------- MODULE GenPaths -------------------------------
EXTENDS Paths, Json
VARIABLES fs, hist
vars == <<fs, hist>>
Pick(S) == RandomElement(S)
Leaf == {"a.png", "B.PNG", "c.txt", ".h.png", "png", "e.tar.png", "f.Png", "x_mask.png", "noext", "g.tif", "_u.png", "q (1).png", "~b.txt", "-c.png", "..h.png"}
Dir == {"d1", "d2", ".hid", "x.png", "sub dir", "_d"}
RandDir(k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<Pick(Dir)>> ELSE IF k = 2 THEN <<Pick(Dir), Pick(Dir)>> ELSE <<Pick(Dir), Pick(Dir), Pick(Dir)>>
Sufs == {<<".png">>, <<".PNG">>, <<"png">>, <<".png", ".txt">>, <<".tif", "mask.png">>, <<"">>, <<".jpg">>, <<".Txt", ".TIF">>, <<"ext">>}
Dirs == {<<>>} \cup {e.p : e \in {x \in fs : x.k = "dir"}}
Links == {e.p : e \in {x \in fs : x.k = "link" /\ IsDir(fs, x.p)}}
Draw(k) ==
  CASE k = "touch" -> Op("touch", Append(Pick(Dirs), Pick(Leaf)))
    [] k = "mkdir" -> [Op("mkdir", IF Pick(1..4) = 1 THEN Append(Pick(Dirs), Pick(Leaf)) ELSE RandDir(Pick({0, 1, 1, 2, 3}))) EXCEPT !.form = Pick(0..3)]
    [] k = "link" -> [Op("link", <<Pick({"l1", "l2.png", "a.png", "d1", ".l3"})>>) EXCEPT !.ow = Pick({TRUE, TRUE, FALSE}),
                        !.t = IF fs = {} \/ Pick(1..6) = 1 THEN <<"missing">> ELSE Pick({e.p : e \in fs}), !.form = Pick(0..1)]
    [] k = "check" -> [Op("check", IF fs = {} \/ Pick(1..4) = 1 THEN <<"missing">> ELSE Pick({e.p : e \in fs})) EXCEPT !.form = Pick(0..1)]
    [] k = "scan" -> [Op("scan", IF Pick(1..3) = 1 /\ Links # {} THEN Pick(Links) ELSE Pick(Dirs \cup {<<>>})) EXCEPT !.sufs = Pick(Sufs),
                        !.any = Pick({TRUE, FALSE, FALSE, FALSE}), !.rec = Pick(BOOLEAN), !.cs = Pick(BOOLEAN), !.form = Pick(0..3)]
    [] OTHER -> [Op("badscan", <<>>) EXCEPT !.form = Pick(0..5)]
Init == fs = Fresh /\ hist = <<>>
Next == IF Len(hist) < 26
        THEN \E k \in {Pick({"touch", "touch2", "touch3", "touch4", "mkdir", "mkdir2", "link", "check", "scan", "scan2", "scan3", "scan4", "bad"})} :
             \E op \in {Draw(CASE k \in {"touch2", "touch3", "touch4"} -> "touch" [] k = "mkdir2" -> "mkdir"
                               [] k \in {"scan2", "scan3", "scan4"} -> "scan" [] OTHER -> k)} :
               IF Sensible(fs, op) THEN fs' = Apply(fs, op) /\ hist' = Append(hist, op)
               ELSE fs' = fs /\ hist' = Append(hist, Op("none", <<>>))
        ELSE PrintT(<<"BEH", ToJson([ops |-> hist])>>) /\ fs' = Fresh /\ hist' = <<>>
Spec == Init /\ [][Next]_vars
=============================================================================
