------------------------------ MODULE MCLogging ------------------------------
EXTENDS Logging
VARIABLES st, asked
vars == <<st, asked>>
Names == {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"ab">>}
Lv == {10, 20, 30}
Op(o, k, n, l, f) == [o |-> o, kind |-> k, name |-> n, lv |-> l, file |-> f, mode |-> "w"]
Ops(A) == {Op("get", "", n, l, f) : n \in Names, l \in {10, 30}, f \in {0, 1}}
       \cup {Op("get", "", n, 20, Unopenable) : n \in Names}
       \cup {[Op("get", "", n, 20, 1) EXCEPT !.mode = "a"] : n \in {<<"a">>, <<"ab">>}}
       \cup {Op("root", "", Root, l, 0) : l \in {10}}
       \cup {Op("level", "", n, l, 0) : n \in A \cap {<<"a", "b">>}, l \in {10, 30}}
       \cup {Op("print", k, n, l, 0) : k \in {"silent", "name", "logger"}, n \in Names, l \in {20}}
Init == st = Fresh /\ asked = {}
Next == \E x \in Ops(asked) :
          /\ x.o = "level" => Len(st.own) = Len(st.reg)
          /\ (x.kind = "logger" => x.name \in asked)
          /\ st' = Apply(st, x)
          /\ asked' = asked \cup (IF x.o = "print" /\ x.kind # "name" THEN {} ELSE {n \in {x.name} : Under(st', n)})
Spec == Init /\ [][Next]_vars
(* a requested logger is always served by some configured one *)
Served == \A n \in asked : Ancestors(st, n) # {}
NoDuplicates == \A i, j \in 1..Len(st.reg) : st.reg[i].name = st.reg[j].name => i = j
(* asked for top-down, every message shows at most once, and once when its level suffices *)
ExactlyOnce == ParentFirst(st) =>
  \A n \in asked, l \in Lv : OnConsole(st, n, l) = (IF l >= Level(st, n) /\ l >= st.reg[Nearest(st, n)].lv THEN 1 ELSE 0)
FileGetsAll == ParentFirst(st) => \A n \in asked, l \in Lv :
  LET r == st.reg[Nearest(st, n)] IN (r.file # 0 /\ l >= r.lv /\ l >= Level(st, n)) => InFile(st, n, l, r.file) = 1
(* appending loses nothing, and nothing comes back *)
LostBound == Lost(st) <= Cardinality({i \in 1..Len(st.reg) : st.reg[i].file # 0})
LostGrows == [][Lost(st') >= Lost(st) /\ (Lost(st') # Lost(st) => st'.reg[Len(st'.reg)].mode = "w")]_vars
(* later requests never change anything *)
Sticky == [][\A i \in 1..Len(st.reg) : st'.reg[i] = st.reg[i]]_vars
OneAtATime == [][st'.reg # st.reg => /\ Len(st'.reg) = Len(st.reg) + 1
                           /\ ~Under(st, st'.reg[Len(st'.reg)].name)]_vars
=============================================================================
