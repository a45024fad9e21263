------------------------------- MODULE Logging -------------------------------
(* Logger registry, handlers with their levels, hierarchical propagation and   *)
(* message dispatch.  Names are dotted paths given as sequences of components. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Off == 99
(* registry: configured name -> level, file number or 0, "w" / "a" for the file *)
(* levels in force: those given at configuration or set later on a logger by its user *)
Fresh == [reg |-> <<>>,          \* sequence of [name, lv, file, mode] in configuration order
          own |-> <<>>]          \* sequence of [name, lv] in the order they were set
Unopenable == 9                  \* a log file that cannot be opened: the request fails and configures nothing

Configured(s, nm) == \E i \in 1..Len(s.reg) : s.reg[i].name = nm
Under(s, nm) == \E i \in 1..Len(s.reg) : IsPrefix(s.reg[i].name, nm)

(* request: configures on first use unless the name or an ancestor is configured *)
Refused(s, nm, file) == ~Under(s, nm) /\ file = Unopenable
Get(s, nm, lv, file, mode) ==
  IF Under(s, nm) \/ file = Unopenable THEN s
  ELSE [reg |-> Append(s.reg, [name |-> nm, lv |-> lv, file |-> file, mode |-> mode]),
        own |-> Append(s.own, [name |-> nm, lv |-> lv])]
(* what log files held before is lost when they are opened for writing, not for appending *)
Lost(s) == Cardinality({i \in 1..Len(s.reg) : s.reg[i].file # 0 /\ s.reg[i].mode = "w"})

Ancestors(s, nm) == {i \in 1..Len(s.reg) : IsPrefix(s.reg[i].name, nm)}
Nearest(s, nm) == CHOOSE i \in Ancestors(s, nm) : \A j \in Ancestors(s, nm) : Len(s.reg[j].name) <= Len(s.reg[i].name)
(* the level in force is the last one given to the nearest ancestor (or self) that has one *)
Levels(s, nm) == {i \in 1..Len(s.own) : IsPrefix(s.own[i].name, nm)}
Level(s, nm) == LET i == CHOOSE i \in Levels(s, nm) : \A j \in Levels(s, nm) :
                           Len(s.own[j].name) < Len(s.own[i].name) \/ (Len(s.own[j].name) = Len(s.own[i].name) /\ j <= i)
                IN s.own[i].lv
Passes(s, nm, lv) == {i \in Ancestors(s, nm) : lv >= Level(s, nm) /\ lv >= s.reg[i].lv}

(* how often a message shows on the console, and in which files                *)
OnConsole(s, nm, lv) == Cardinality(Passes(s, nm, lv))
InFile(s, nm, lv, f) == Cardinality({i \in Passes(s, nm, lv) : s.reg[i].file = f})
Handlers(s, nm) == LET I == {i \in 1..Len(s.reg) : s.reg[i].name = nm} IN
                   IF I = {} THEN 0 ELSE IF s.reg[CHOOSE i \in I : TRUE].file = 0 THEN 1 ELSE 2

(* parents were asked for before their children *)
ParentFirst(s) == \A i, j \in 1..Len(s.reg) : i < j => ~IsPrefix(s.reg[j].name, s.reg[i].name)

(* operations:                                                                 *)
(*  get  name lv file mode get_logger                                           *)
(*  level name lv          the user sets the level of a logger obtained before  *)
(*  root lv file           get_root_logger                                      *)
(*  log  name lv           message through the logger last returned for name    *)
(*  print kind name lv     print_log: "none", "silent", "name", "logger", "bad" *)
Root == <<"pyEdgeEval">>
Apply(s, op) ==
  CASE op.o = "get" -> Get(s, op.name, op.lv, op.file, op.mode)
    [] op.o = "root" -> Get(s, Root, op.lv, op.file, "w")
    [] op.o = "print" /\ op.kind = "name" -> Get(s, op.name, 20, 0, "w")
    [] op.o = "level" -> [s EXCEPT !.own = Append(@, [name |-> op.name, lv |-> op.lv])]
    [] OTHER -> s

Silence == [out |-> 0, con |-> 0, f1 |-> 0, f2 |-> 0, err |-> 0, hs |-> 0]
Emit(s, nm, lv) == [Silence EXCEPT !.con = OnConsole(s, nm, lv), !.f1 = InFile(s, nm, lv, 1), !.f2 = InFile(s, nm, lv, 2)]
Result(s, op) ==
  CASE op.o = "get" /\ Refused(s, op.name, op.file) -> [Silence EXCEPT !.err = 2]
    [] op.o = "root" /\ Refused(s, Root, op.file) -> [Silence EXCEPT !.err = 2]
    [] op.o = "get" -> [Silence EXCEPT !.hs = Handlers(Apply(s, op), op.name)]
    [] op.o = "root" -> [Silence EXCEPT !.hs = Handlers(Apply(s, op), Root)]
    [] op.o = "log" -> Emit(s, op.name, op.lv)
    [] op.o = "print" ->
        (CASE op.kind = "none" -> [Silence EXCEPT !.out = 1]
           [] op.kind = "silent" -> Silence
           [] op.kind = "bad" -> [Silence EXCEPT !.err = 1]
           [] op.kind = "logger" -> Emit(s, op.name, op.lv)
           [] OTHER -> Emit(Apply(s, op), op.name, op.lv))
    [] OTHER -> Silence
=============================================================================
