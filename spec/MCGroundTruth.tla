--------------------------- MODULE MCGroundTruth ---------------------------
(* every file of a few 1x2 boundary maps, with either reader *)
EXTENDS GroundTruth
CONSTANTS Cats, MaxInst
Imgs == {<<<<a, b>>>> : a \in {0, 1}, b \in {0, 1}}
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Empty == [kind |-> "", planes |-> <<>>, seg |-> <<<<1, 0>>>>, cats |-> <<>>, more |-> <<>>, mcats |-> <<>>, names |-> <<>>]
Sorted(S) == [k \in 1..Cardinality(S) |-> CHOOSE i \in S : Cardinality({j \in S : j <= i}) = k]
Readers == {"old", "new"}
Init == \E rd \in Readers :
  \/ \E p \in Lists(Imgs, 3) : GtStart([Empty EXCEPT !.kind = "annotators", !.planes = p], rd)
  \/ \E n \in Lists({"a", "b"}, 3) : GtStart([Empty EXCEPT !.kind = "names", !.names = n], rd)
  \/ \E P \in SUBSET (1..Cats) : \E s \in {Sorted(P)}, p \in [1..Cats -> Imgs] :
       \/ \E k \in {"categories", "instances", "sensitive"}, n \in 0..MaxInst : \E m \in [1..n -> Imgs], c \in [1..n -> 1..Cats] :
            GtStart([Empty EXCEPT !.kind = k, !.planes = p, !.cats = s, !.more = m, !.mcats = c], rd)
       \/ \E m \in [1..Cats -> Imgs], c \in Lists(1..Cats, 2) :
            GtStart([Empty EXCEPT !.kind = "again", !.planes = p, !.cats = s, !.more = m, !.mcats = c], rd)
Spec == Init /\ [][GtNext]_gtVars
(* whatever the reader, the view is the content *)
ReaderFree == step = "done" => view = ViewOf(file, file.planes, file.more, file.names)
NothingLost == (step = "done" /\ file.kind \in {"sensitive", "again"}) =>
               \A c \in 1..Cats : Px(file.planes[c]) \subseteq Px(view.planes[c])
NothingInvented == (step = "done" /\ file.kind \in {"sensitive", "again"}) =>
               \A c \in 1..Cats : (c \notin Range(file.cats)) => view.planes[c] = file.planes[c]
Counts == step = "done" => /\ (file.kind = "annotators" => Len(view.planes) = Len(file.planes))
                           /\ (file.kind = "instances" => Len(view.planes) = Len(view.cats))
RefusedOnly == step = "refused" => \E c \in Range(file.mcats) : c \notin Range(file.cats)
=============================================================================
