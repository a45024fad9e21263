---------------------------- MODULE GroundTruth ----------------------------
(* Ground-truth files and their readers.  A file holds lists (annotators,      *)
(* categories, instances, names); the older reader hands out every list as it  *)
(* is stored, the newer one unwraps lists of one entry.  Whatever the reader,  *)
(* the loader gives the same view of the file.                                 *)
(* file: [kind, planes, seg, cats, more (planes of instances), mcats, names]   *)
EXTENDS Grid
VARIABLES file, reader, raw, view, step
gtVars == <<file, reader, raw, view, step>>
NCat == 20
Kinds == {"annotators", "categories", "instances", "sensitive", "again", "names"}
(* what a reader hands out for a stored list *)
Whole(s) == [one |-> FALSE, it |-> s]
Handed(s, rd) == IF rd = "new" /\ Len(s) = 1 THEN [one |-> TRUE, it |-> s[1]] ELSE Whole(s)
(* what the loader makes of it *)
Listed(r) == IF r.one THEN <<r.it>> ELSE r.it
Range(s) == {s[i] : i \in 1..Len(s)}
Or(a, b) == [y \in 1..Rows(a) |-> TLCEval([x \in 1..Cols(a) |-> IF a[y][x] + b[y][x] > 0 THEN 1 ELSE 0])]
RECURSIVE OrAll(_, _)
OrAll(a, s) == IF s = <<>> THEN a ELSE OrAll(Or(a, Head(s)), Tail(s))
(* boundaries of the instances of a category, added to those of the category *)
Of(cat, planes, cats) == LET idx == {i \in 1..Len(cats) : cats[i] = cat} IN
                         [k \in 1..Cardinality(idx) |-> planes[CHOOSE i \in idx : Cardinality({j \in idx : j <= i}) = k]]
Sensitive(planes, more, mcats) == [c \in 1..Len(planes) |-> TLCEval(OrAll(planes[c], Of(c, more, mcats)))]
(* re-annotated files hold the boundaries of all instances of each category   *)
Rejoined(planes, more, cats) == [c \in 1..Len(planes) |-> IF c \in Range(cats) THEN TLCEval(Or(planes[c], more[c])) ELSE planes[c]]
Refused(f) == f.kind \in {"sensitive", "again"} /\ ~(Range(f.mcats) \subseteq Range(f.cats))
NoView == [planes |-> <<>>, seg |-> <<>>, cats |-> <<>>, names |-> <<>>]
ViewOf(f, planes, more, names) ==
  CASE f.kind = "annotators" -> [NoView EXCEPT !.planes = planes]
    [] f.kind = "names" -> [NoView EXCEPT !.names = names]
    [] f.kind = "instances" -> [planes |-> more, seg |-> f.seg, cats |-> f.mcats, names |-> <<>>]
    [] f.kind = "categories" -> [planes |-> planes, seg |-> f.seg, cats |-> f.cats, names |-> <<>>]
    [] f.kind = "sensitive" -> [planes |-> Sensitive(planes, more, f.mcats), seg |-> f.seg, cats |-> f.cats, names |-> <<>>]
    [] OTHER -> [planes |-> Rejoined(planes, more, f.cats), seg |-> f.seg, cats |-> f.cats, names |-> <<>>]
GtStart(f, rd) == file = f /\ reader = rd /\ raw = <<>> /\ view = NoView /\ step = "open"
Read == /\ step = "open" /\ step' = "read"
        /\ raw' = [planes |-> Handed(file.planes, reader), more |-> Handed(file.more, reader), names |-> Handed(file.names, reader)]
        /\ UNCHANGED <<file, reader, view>>
Decode == /\ step = "read"
          /\ IF Refused(file) THEN step' = "refused" /\ view' = NoView
             ELSE step' = "done" /\ view' = ViewOf(file, Listed(raw.planes), Listed(raw.more), Listed(raw.names))
          /\ UNCHANGED <<file, reader, raw>>
GtNext == Read \/ Decode
=============================================================================
