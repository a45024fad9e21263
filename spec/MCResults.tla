------------------------------ MODULE MCResults ------------------------------
(* histories of writes into one result folder *)
EXTENDS Results
CONSTANTS Depth
VARIABLES last, n
Vals == {0, 4999995, 10000000}
O9(v) == [k \in 1..9 |-> IF k = 4 THEN v ELSE (v + 1234565 * k) % 10000001]
Parts(v) == {[S |-> s, T |-> t, O |-> o] : s \in {<<>>, <<[name |-> "a", v |-> <<v, v, 0, v>>]>>}, t \in {<<>>, <<<<v, v, 0, v>>, <<0, 0, v, 15>>>>},
             o \in {<<>>, O9(v)}}
Full(v) == [S |-> <<[name |-> "a", v |-> <<v, v, 0, v>>]>>, T |-> <<<<v, v, 0, v>>>>, O |-> O9(v)]
Ops == {[o |-> "category", cat |-> c] @@ p : c \in {1, 12}, p \in UNION {Parts(v) : v \in {0, 4999995}}}
       \cup {[o |-> "binary"] @@ p : p \in UNION {Parts(v) : v \in {4999995}}}
       \cup {[o |-> "old", dir |-> d, O |-> O9(10000000)] : d \in {"", "class_012/"}}
       \cup {[o |-> "run", how |-> h[1], cats |-> h[2], classes |-> <<"x", "y">>, per |-> [i \in 1..2 |-> Full(v[i])], save |-> TRUE]
             : h \in {<<"list", <<2, 1>>>>, <<"int", <<2>>>>, <<"none", <<>>>>, <<"list", <<1, 1>>>>}, v \in Vals \X Vals}
Init == Start /\ last = [o |-> "none"] /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E op \in Ops : Do(op) /\ last' = op
Spec == Init /\ [][Next]_<<disk, last, n>>
(* what was written last is there; everything else is as before *)
LastIsThere == \A p \in DOMAIN Writes(last) : disk[p] = Writes(last)[p]
OthersUntouched == [][\A p \in DOMAIN disk : p \notin DOMAIN Writes(last') => disk'[p] = disk[p]]_<<disk, last, n>>
NothingVanishes == [][DOMAIN disk \subseteq DOMAIN disk']_<<disk, last, n>>
(* categories never share files *)
Separate == \A a, b \in {1, 2, 12, 120, 999} : a # b => Folder(a) # Folder(b)
(* means lie between the extremes, and one category is its own mean *)
MeanBetween == last.o = "run" => \A k \in 1..9 : LET c == Column(last, k) IN
  \E i, j \in 1..Len(c) : Len(c) * c[i] <= Total(last, k) /\ Total(last, k) <= Len(c) * c[j]
OneIsMean == (last.o = "run" /\ Len(Evaluated(last)) = 1) => \A k \in 1..9 : Values(Means(last)[k]) = Values(Cell(last.per[Evaluated(last)[1]].O[k]))
(* the table and the file agree to the printed precision *)
TableAgrees == last.o = "run" => \A m \in DOMAIN SummaryRow(last) : \A s \in SummaryRow(last)[m] : \A w \in Values(Means(last)[Col(m)]) : s * 10 - w \in (-11)..11
(* plots show what the files hold *)
Plottable == CanPlot(disk, [thr |-> "eval_bdry_thr.txt", ovr |-> "eval_bdry.txt"]) =>
  LET a == [thr |-> "eval_bdry_thr.txt", ovr |-> "eval_bdry.txt"] IN
  /\ Len(Overall(disk, a)) \in {8, 9}
  /\ \A x \in Shown(Overall(disk, a)[4], 1000) : x \in 0..1000
  /\ Len(Curve(disk, a)) <= Len(disk[a.thr])
TextsOK == \A p \in DOMAIN disk : \A i \in 1..Len(disk[p]) : \A k \in 1..Len(disk[p][i].cells) :
            /\ Cardinality(Texts(disk[p][i].cells[k])) \in 1..2
            /\ \A t \in Texts(disk[p][i].cells[k]) : Len(t) = 8
=============================================================================
