-------------------------------- MODULE Paths --------------------------------
(* A small file system and the path helpers acting on it.  A path is a         *)
(* sequence of names below the scratch root <<>>; the state is a set of         *)
(* entries [p |-> path, k |-> "dir" | "file" | "link", t |-> target path].      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fresh == {}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
Has(fs, p) == p = <<>> \/ \E e \in fs : e.p = p
Entry(fs, p) == IF p = <<>> THEN [p |-> <<>>, k |-> "dir", t |-> <<>>] ELSE CHOOSE e \in fs : e.p = p
(* links are never chained and never lead into a folder containing themselves *)
Kind(fs, p) == IF ~Has(fs, p) THEN "absent"
               ELSE LET e == Entry(fs, p) IN
                    IF e.k # "link" THEN e.k
                    ELSE IF ~Has(fs, e.t) THEN "broken" ELSE Entry(fs, e.t).k
IsFile(fs, p) == Kind(fs, p) = "file"
IsDir(fs, p) == Kind(fs, p) = "dir"
Real(fs, p) == IF p # <<>> /\ Has(fs, p) /\ Entry(fs, p).k = "link" THEN Entry(fs, p).t ELSE p
Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}
Children(fs, d) == {e \in fs : Len(e.p) = Len(d) + 1 /\ SubSeq(e.p, 1, Len(d)) = d}

(* ----------------------------------------------------------------- strings *)
EndsWith(s, x) == Len(x) <= Len(s) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Hidden(s) == SubSeq(s, 1, 1) = "."
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
Low1(c) == IF \E i \in 1..26 : SubSeq(Upper, i, i) = c
           THEN LET i == CHOOSE j \in 1..26 : SubSeq(Upper, j, j) = c IN SubSeq(LowerCase, i, i) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE Low1(SubSeq(s, 1, 1)) \o Lower(SubSeq(s, 2, Len(s)))

(* ------------------------------------------------------------------ scanning *)
Wanted(nm, sufs, anysuf, cs) ==
  \/ anysuf
  \/ \E i \in 1..Len(sufs) : IF cs THEN EndsWith(nm, sufs[i]) ELSE EndsWith(Lower(nm), Lower(sufs[i]))
(* files found below folder d, as paths relative to it: rel is the path walked so far *)
RECURSIVE Found(_, _, _, _, _, _, _)
Found(fs, d, rel, sufs, anysuf, rec, cs) ==
  LET C == Children(fs, Real(fs, d)) IN
  {Append(rel, Name(e.p)) : e \in {c \in C : ~Hidden(Name(c.p)) /\ IsFile(fs, c.p) /\ Wanted(Name(c.p), sufs, anysuf, cs)}}
  \cup (IF ~rec THEN {}
        ELSE UNION {Found(fs, e.p, Append(rel, Name(e.p)), sufs, anysuf, rec, cs) : e \in {c \in C : IsDir(fs, c.p)}})

(* --------------------------------------------------------------- operations *)
Blocked(fs, p) == \E q \in Prefixes(p) : Has(fs, q) /\ ~IsDir(fs, q)
Apply(fs, op) ==
  CASE op.o = "touch" -> fs \cup {[p |-> op.p, k |-> "file", t |-> <<>>]}
    [] op.o = "mkdir" -> IF Blocked(fs, op.p) THEN fs
                         ELSE fs \cup {[p |-> q, k |-> "dir", t |-> <<>>] : q \in {x \in Prefixes(op.p) : ~Has(fs, x)}}
    [] op.o = "link" -> IF Has(fs, op.p) /\ (~op.ow \/ Entry(fs, op.p).k = "dir") THEN fs
                        ELSE {e \in fs : e.p # op.p} \cup {[p |-> op.p, k |-> "link", t |-> op.t]}
    [] OTHER -> fs
Nothing == [err |-> "", files |-> {}]
Err(e) == [err |-> e, files |-> {}]
Result(fs, op) ==
  CASE op.o = "mkdir" -> IF Blocked(fs, op.p) THEN Err("OSError") ELSE Nothing
    [] op.o = "link" -> IF Has(fs, op.p) /\ (~op.ow \/ Entry(fs, op.p).k = "dir") THEN Err("OSError") ELSE Nothing
    [] op.o = "check" -> IF IsFile(fs, op.p) THEN Nothing ELSE Err("FileNotFoundError")
    [] op.o = "scan" -> [err |-> "", files |-> Found(fs, op.p, <<>>, op.sufs, op.any, op.rec, op.cs)]
    [] op.o = "badscan" -> Err("TypeError")
    [] OTHER -> Nothing
Op(o, p) == [o |-> o, p |-> p, t |-> <<>>, ow |-> TRUE, sufs |-> <<>>, any |-> TRUE, rec |-> FALSE, cs |-> TRUE, form |-> 0]

(* operations that keep links harmless: only top-level links, to entries that   *)
(* are not links and not the root                                               *)
Sensible(fs, op) ==
  CASE op.o = "touch" -> Len(op.p) > 0 /\ ~Has(fs, op.p) /\ Has(fs, Parent(op.p)) /\ Entry(fs, Parent(op.p)).k = "dir"
    [] op.o = "mkdir" -> \A q \in Prefixes(op.p) : Has(fs, q) => (Entry(fs, q).k # "link" \/ q = op.p)
    [] op.o = "link" -> Len(op.p) = 1 /\ Len(op.t) > 0 /\ op.t # op.p /\ op.t[1] # op.p[1]
                        /\ (Has(fs, op.t) => Entry(fs, op.t).k # "link")
                        /\ ~\E e \in fs : e.k = "link" /\ e.t = op.p
                        /\ ~\E q \in Prefixes(op.t) : Has(fs, q) /\ Entry(fs, q).k = "link"
    [] op.o = "scan" -> IsDir(fs, op.p)
    [] OTHER -> TRUE
=============================================================================
