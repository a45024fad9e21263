------------------------------- MODULE Results -------------------------------
(* The result folder: what the writers leave on disk, the readable summary,    *)
(* and what the plotting functions report from those files.                    *)
(* Scores are integers in units of 1/U; a cell is <<num, den>>: num/den        *)
(* millionths, written to six decimals.                                        *)
EXTENDS Fixed, TLC
(* nearest integers to num/den: two of them exactly at a tie *)
Rounded(num, den) == {(2 * num + den) \div (2 * den), -((den - 2 * num) \div (2 * den))}
Cell(v) == <<v, 10>>
Values(c) == Rounded(c[1], c[2])
Digit1 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Padded(_, _)
Padded(n, w) == IF w = 0 THEN "" ELSE Padded(n \div 10, w - 1) \o Digit1[(n % 10) + 1]
Text6(w) == ToString(w \div 1000000) \o "." \o Padded(w % 1000000, 6)
Texts(c) == {Text6(w) : w \in Values(c)}

Folder(cat) == "class_" \o (IF cat > 999 THEN ToString(cat) ELSE Padded(cat, 3)) \o "/"
Metrics == <<"ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP">>
Col(m) == CHOOSE i \in 1..9 : Metrics[i] = m

(* a file is a sequence of rows [name, cells] *)
Rows(T) == [i \in 1..Len(T) |-> [name |-> "", cells |-> [k \in 1..Len(T[i]) |-> Cell(T[i][k])]]]
NamedRows(S) == [i \in 1..Len(S) |-> [name |-> S[i].name, cells |-> [k \in 1..4 |-> Cell(S[i].v[k])]]]
Put(path, rows) == path :> rows
Nothing == [p \in {} |-> <<>>]
(* empty parts are not written: an earlier file stays *)
SaveTo(dir, op) ==
  (IF op.S # <<>> THEN Put(dir \o "eval_bdry_img.txt", NamedRows(op.S)) ELSE Nothing)
  @@ (IF op.T # <<>> THEN Put(dir \o "eval_bdry_thr.txt", Rows(op.T)) ELSE Nothing)
  @@ (IF op.O # <<>> THEN Put(dir \o "eval_bdry.txt", Rows(<<op.O>>)) ELSE Nothing)

(* ------------------------------------------------------- a whole evaluation *)
Evaluated(op) == CASE op.how = "list" -> op.cats [] op.how = "int" -> op.cats [] OTHER -> [i \in 1..Len(op.classes) |-> i]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
Column(op, k) == LET c == Evaluated(op) IN [i \in 1..Len(c) |-> op.per[c[i]].O[k]]
Total(op, k) == SumTo(Column(op, k), Len(Evaluated(op)))
Means(op) == [k \in 1..9 |-> <<Total(op, k), 10 * Len(Evaluated(op))>>]
RECURSIVE SaveAll(_, _)
SaveAll(op, c) == IF c = <<>> THEN Nothing ELSE SaveTo(Folder(Head(c)), op.per[Head(c)]) @@ SaveAll(op, Tail(c))
RunWrites(op) == IF ~op.save THEN Nothing
  ELSE SaveAll(op, Evaluated(op)) @@ Put("overall_eval_bdry.txt", <<[name |-> "", cells |-> Means(op)]>>)

(* the readable table: cells in thousandths of a percent, thresholds in hundredths *)
ClassTable(op) ==
  LET c == Evaluated(op) IN
  [names |-> [i \in 1..Len(c) |-> op.classes[c[i]]],
   cols |-> [m \in {"ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1"} |->
              [i \in 1..Len(c) |-> IF m = "ODS_threshold" THEN Rounded(op.per[c[i]].O[1], 100000) ELSE Rounded(op.per[c[i]].O[Col(m)], 100)]]]
SummaryRow(op) == [m \in {Metrics[k] : k \in 2..9} |-> Rounded(Total(op, Col(m)), 100 * Len(Evaluated(op)))]

Writes(op) == CASE op.o = "category" -> SaveTo(Folder(op.cat), op)
                [] op.o \in {"binary", "computed"} -> SaveTo("", op)
                [] op.o = "old" -> Put(op.dir \o "eval_bdry.txt", Rows(<<SubSeq(op.O, 1, 8)>>))
                [] op.o = "run" -> RunWrites(op)
                [] OTHER -> Nothing

(* ------------------------------------------------------------------ plotting *)
CanPlot(d, alg) == alg.thr \in DOMAIN d /\ alg.ovr \in DOMAIN d
Overall(d, alg) == d[alg.ovr][1].cells
One(c) == CHOOSE w \in Values(c) : \A x \in Values(c) : w <= x
(* points with (almost) no recall are left out of the curve *)
Curve(d, alg) == SelectSeq([i \in 1..Len(d[alg.thr]) |-> [rec |-> d[alg.thr][i].cells[2], prec |-> d[alg.thr][i].cells[3]]],
                           LAMBDA x : One(x.rec) >= 1000)
(* three decimals of a value that went through six *)
Shown(c, unit) == UNION {Rounded(w, unit) : w \in Values(c)}

VARIABLES disk
Start == disk = Nothing
Do(op) == disk' = Writes(op) @@ disk
=============================================================================
