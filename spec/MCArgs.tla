------------------------------- MODULE MCArgs --------------------------------
(* a user types a text character by character; every prefix is submitted       *)
EXTENDS Args
CONSTANTS Alphabet, MaxLen
VARIABLES text, res
vars == <<text, res>>
Init == text = <<>> /\ res = [thr |-> ParseThresholds(<<>>), cat |-> ParseCategories(<<>>)]
Type == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : \E t \in {Append(text, c)} : text' = t /\ res' = [thr |-> ParseThresholds(t), cat |-> ParseCategories(t)]
Spec == Init /\ [][Type]_vars
Kinds == {"malformed", "number", "list"}
TypeOK == res.thr.kind \in Kinds /\ res.cat.kind \in Kinds
(* blanks around the text, the brackets' content and the separators never matter *)
Spaced(t) == LET RECURSIVE go(_)
                 go(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in {",", "[", "]"} THEN <<" ", Head(s), " ">> ELSE <<Head(s)>>) \o go(Tail(s))
             IN go(t)
BlanksIgnored == ParseThresholds(Spaced(text)) = res.thr /\ ParseCategories(Spaced(text)) = res.cat
Depth(c) == Cardinality({i \in 1..Len(text) : text[i] = c})
ListShape == \A r \in {res.thr, res.cat} : r.kind = "list" => Len(r.v) = Depth(",") + 1 /\ Depth("[") = 1 /\ Depth("]") = 1
NumberAgrees == (res.thr.kind = "number" <=> res.cat.kind = "number") /\ (res.thr.kind = "number" => res.thr = res.cat)
(* whole-number lists are also decimal lists of the same values *)
IntListsAreDecimal == res.cat.kind = "list" => res.thr.kind = "list" /\ \A i \in 1..Len(res.cat.v) : res.thr.v[i] = U * res.cat.v[i]
BracketsNeeded == res.thr.kind = "list" => Strip(text)[1] = "[" /\ Strip(text)[Len(Strip(text))] = "]"
SpreadShape == \A n \in 1..20 : LET s == Spread(n) IN
   /\ Len(s) = n /\ (\A i \in 1..n : s[i] > 0 /\ s[i] < U) /\ (\A i \in 1..(n - 1) : s[i] < s[i + 1])
   /\ \A i \in 1..n : Abs(s[i] + s[n + 1 - i] - U) <= 1
ASSUME SpreadShape
=============================================================================
