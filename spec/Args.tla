-------------------------------- MODULE Args ---------------------------------
(* Threshold values and the textual arguments of the command-line evaluators.  *)
(* A text is a sequence of one-character strings.                              *)
EXTENDS Grid, Fixed
Blanks == {" ", "\t", "\n"}
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitVal(c) == CHOOSE i \in 0..9 : Digits[i + 1] = c

RECURSIVE LStrip(_)
LStrip(t) == IF t = <<>> THEN <<>> ELSE IF Head(t) \in Blanks THEN LStrip(Tail(t)) ELSE t
RECURSIVE RStrip(_)
RStrip(t) == IF t = <<>> THEN <<>> ELSE IF t[Len(t)] \in Blanks THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == RStrip(LStrip(t))

(* pieces between separators; always at least one *)
RECURSIVE SplitAt(_, _)
SplitAt(t, sep) == IF \E i \in 1..Len(t) : t[i] = sep
                   THEN LET i == CHOOSE j \in 1..Len(t) : t[j] = sep /\ \A k \in 1..(j - 1) : t[k] # sep
                        IN <<SubSeq(t, 1, i - 1)>> \o SplitAt(SubSeq(t, i + 1, Len(t)), sep)
                   ELSE <<t>>

Bad == [ok |-> FALSE, v |-> 0]
Good(v) == [ok |-> TRUE, v |-> v]
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])
RECURSIVE Natural(_)
Natural(t) == IF t = <<>> THEN 0 ELSE 10 * Natural(SubSeq(t, 1, Len(t) - 1)) + DigitVal(t[Len(t)])
Signed(t) == t # <<>> /\ Head(t) \in {"+", "-"}
Body(t) == IF Signed(t) THEN Tail(t) ELSE t
Sign(t) == IF Signed(t) /\ Head(t) = "-" THEN -1 ELSE 1
(* whole numbers, after removal of surrounding blanks *)
IntOf(text) == LET t == Strip(text) IN IF AllDigits(Body(t)) THEN Good(Sign(t) * Natural(Body(t))) ELSE Bad
(* decimal numbers in units of 1/U: digits with at most one point, at least one digit *)
RECURSIVE Tenths(_, _)
Tenths(t, unit) == IF t = <<>> THEN 0 ELSE DigitVal(Head(t)) * unit + Tenths(Tail(t), unit \div 10)
DecOf(text) ==
  LET t == Strip(text)
      p == SplitAt(Body(t), ".")
      a == p[1]
      b == IF Len(p) > 1 THEN p[2] ELSE <<>>
  IN IF Len(p) <= 2 /\ (a \o b) # <<>> /\ (\A i \in 1..Len(a \o b) : IsDigit((a \o b)[i]))
     THEN Good(Sign(t) * (Natural(a) * U + Tenths(b, U \div 10))) ELSE Bad

Malformed == [kind |-> "malformed", v |-> <<>>]
ListOf(t, Item(_)) ==
  LET p == SplitAt(SubSeq(t, 2, Len(t) - 1), ",")
      v == [i \in 1..Len(p) |-> Item(p[i])]
  IN IF \A i \in 1..Len(v) : v[i].ok THEN [kind |-> "list", v |-> [i \in 1..Len(v) |-> v[i].v]] ELSE Malformed
(* a number, or a bracketed list *)
Parse(text, Item(_)) ==
  LET t == Strip(text) IN
  IF IntOf(t).ok THEN [kind |-> "number", v |-> <<IntOf(t).v>>]
  ELSE IF Len(t) >= 2 /\ t[1] = "[" /\ t[Len(t)] = "]" THEN ListOf(t, Item)
  ELSE Malformed
ParseThresholds(text) == Parse(text, DecOf)
ParseCategories(text) == Parse(text, IntOf)
(* the thresholds an argument means, in units of 1/U *)
Spread(n) == [i \in 1..n |-> Frac(i, n + 1)]
Meaning(a) == IF a.kind = "number" THEN Spread(a.v[1]) ELSE a.v
=============================================================================
