-------------------------------- MODULE MCNms --------------------------------
(* Every small strength map, one direction for all pixels.                    *)
EXTENDS Nms, TLC
CONSTANTS H, W, MaxV
VARIABLES r, s, m
vars == <<nmsVars, r, s, m>>
Dirs == {<<1000, 0>>, <<0, 1000>>, <<800, 600>>, <<-600, 800>>}
Init == /\ \E e \in [1..H -> [1..W -> 0..MaxV]] : \E d \in Dirs :
             NmsStart(e, [y \in 1..H |-> [x \in 1..W |-> d]])
        /\ r \in {0, 1, 2} /\ s \in {0, 1, 2}
        /\ m \in {1000000, 1250000}
Next == (Suppress(r, m) \/ Fade(s)) /\ UNCHANGED <<r, s, m>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
S == FadeWidth(s, H, W)
NeverLarger == \A p \in Cell(kept) : stage # "done" => kept[p[1]][p[2]] <= strength[p[1]][p[2]]
ScaledNeverLarger == stage = "done" => \A p \in Cell(kept) :
   kept[p[1]][p[2]] <= strength[p[1]][p[2]] * FadeDen(S)
BorderEmpty == stage = "done" /\ S > 0 => \A p \in Cell(kept) :
   (p[1] \in {1, H} \/ p[2] \in {1, W}) => kept[p[1]][p[2]] = 0
NoRadiusKeepsAll == stage = "fade" /\ r = 0 => kept = strength
(* the strongest pixel of the map always survives suppression *)
PeakSurvives == stage = "fade" => \A p \in Cell(kept) :
   (\A q \in Cell(kept) : strength[q[1]][q[2]] <= strength[p[1]][p[2]]) => kept[p[1]][p[2]] = strength[p[1]][p[2]]
InteriorUntouched == stage = "done" /\ S = 0 => \A p \in Cell(kept) : kept[p[1]][p[2]] \in {0, strength[p[1]][p[2]]}
SampleBounded == (stage = "suppress" /\ r = 0 /\ s = 0 /\ m = 1000000 /\ dirs[1][1] = <<1000, 0>>) => \A y \in -2..H+2 : \A x \in -2..W+2 :
   LET v == Sample(strength, 1000 * y + 300, 1000 * x - 300) IN v >= 0 /\ v <= 1000000 * MaxV
Finishes == <>(stage = "done")
=============================================================================
