------------------------------- MODULE MCPaths -------------------------------
EXTENDS Paths
VARIABLE fs
Names == {"a.png", "B.PNG", "d"}
P == {<<x>> : x \in Names} \cup {<<"d", x>> : x \in {"a.png", ".h.png"}}
Ops == {Op("touch", p) : p \in P} \cup {Op("mkdir", p) : p \in P}
       \cup {[Op("link", p) EXCEPT !.t = t, !.ow = w] : p \in {<<"a.png">>, <<"l">>}, t \in P, w \in BOOLEAN}
Init == fs = Fresh
Next == \E op \in Ops : Sensible(fs, op) /\ fs' = Apply(fs, op)
Spec == Init /\ [][Next]_fs
OneEntryPerPath == \A e, f \in fs : e.p = f.p => e = f
ParentsExist == \A e \in fs : Len(e.p) > 1 => Has(fs, Parent(e.p)) /\ Entry(fs, Parent(e.p)).k = "dir"
Scan(sufs, any, rec, cs) == Found(fs, <<>>, <<>>, sufs, any, rec, cs)
RecursionAdds == Scan(<<>>, TRUE, FALSE, TRUE) \subseteq Scan(<<>>, TRUE, TRUE, TRUE)
FlatIsFlat == \A p \in Scan(<<>>, TRUE, FALSE, TRUE) : Len(p) = 1
SuffixFilters == LET s == Scan(<<".png">>, FALSE, TRUE, TRUE)  i == Scan(<<".PNG">>, FALSE, TRUE, FALSE)
                     m == Scan(<<".png", ".PNG">>, FALSE, TRUE, TRUE) IN
  s \subseteq i /\ m = i /\ i \subseteq Scan(<<>>, TRUE, TRUE, TRUE)
NoHidden == \A p \in Scan(<<>>, TRUE, TRUE, TRUE) : ~Hidden(Name(p))
OnlyFiles == \A p \in Scan(<<>>, TRUE, FALSE, TRUE) : IsFile(fs, p)
(* a folder once made stays; nothing but linking replaces an entry, and never a folder *)
DirsStay == [][\A e \in fs : e.k = "dir" => e \in fs']_fs
ASSUME Lower("aB.PNG") = "ab.png" /\ EndsWith("x.png", ".png") /\ ~EndsWith("png", ".png")
=============================================================================
