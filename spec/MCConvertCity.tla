---------------------------- MODULE MCConvertCity ----------------------------
EXTENDS ConvertCity
CONSTANT Wide
Maps == IF Wide THEN [1..2 -> [1..3 -> {2, 7, 24}]] ELSE [1..1 -> [1..4 -> {2, 7, 24}]]
Instd(g) == MapImg(g, LAMBDA v : IF v = 24 THEN 24001 ELSE v)
Split2(g) == [y \in 1..Len(g) |-> [x \in 1..Len(g[1]) |-> IF g[y][x] = 24 THEN 24000 + (x % 2) ELSE g[y][x]]]
Im(s, n, g, i) == [split |-> s, city |-> "c", name |-> n, lab |-> g, inst |-> i]
Run(is, half) == [proc |-> "p", is |-> is, ext |-> "png", half |-> half, tr |-> 1, rr |-> 2, serial |-> FALSE]
Fixed1 == <<<<7, 24, 24, 3>>>>
Trees == {<<Im("train", "a", Fixed1, Split2(Fixed1)), Im("val", "a", g, i), Im("test", "t", Fixed1, Fixed1)>> : g \in Maps, i \in {Instd(Fixed1)}}
         \cup {<<Im("val", "b", g, Split2(g))>> : g \in Maps}
Init == \E t \in Trees, rs \in {<<Run(FALSE, TRUE)>>, <<Run(TRUE, FALSE), Run(FALSE, FALSE)>>} :
          ConvStart(IF Len(t) = 3 THEN [t EXCEPT ![2].inst = Split2(t[2].lab)] ELSE t, rs)
Next == BeginRun \/ \E t \in pieces : Piece(t)
Spec == Init /\ [][Next]_convVars /\ WF_convVars(Next)
(* whatever the order, the outcome is the same *)
Wanted == {<<i, v, r>> : i \in 1..Len(tree), v \in {"ids", "train", "raw", "thin", "half_raw", "half_thin"}, r \in 1..Len(runs)}
Expected == {w \in Wanted : <<w[1], w[2]>> \in Todo(runs[w[3]])}
Confluent == Finished => /\ DOMAIN files = {PathOf(tree[w[1]], w[2], runs[w[3]]) : w \in Expected}
                         /\ \A w \in Expected : files[PathOf(tree[w[1]], w[2], runs[w[3]])] = Content(tree[w[1]], w[2], runs[w[3]])
(* names never collide, so no piece overwrites another one with something else *)
NoClash == \A w, x \in Expected : (w # x /\ ~(w[2] = "ids" /\ x[2] = "ids" /\ w[1] = x[1])) => PathOf(tree[w[1]], w[2], runs[w[3]]) # PathOf(tree[x[1]], x[2], runs[x[3]])
TestUntouched == \A p \in DOMAIN files : \A i \in 1..Len(tree) : tree[i].split = "test" =>
                    \A v \in {"ids", "train", "raw"} : \A r \in 1..Len(runs) : p # PathOf(tree[i], v, runs[r])
(* wider boundaries contain narrower ones; instances only add; thin is within radius one; ignored pixels next to nothing draw nothing *)
Bits(img) == UNION {{<<p, k>> : k \in {j \in 0..18 : ((img[p[1]][p[2]] \div (2 ^ j)) % 2) = 1}} : p \in Cell(img)}
Nested == at = 0 => \A i \in 1..Len(tree) : LET im == tree[i] IN
  /\ Bits(Pack(im.lab, <<>>, 1, FALSE)) \subseteq Bits(Pack(im.lab, <<>>, 2, FALSE))
  /\ Bits(Pack(im.lab, <<>>, 1, FALSE)) \subseteq Bits(Pack(im.lab, im.inst, 1, FALSE))
  /\ Bits(Pack(im.lab, im.inst, 1, TRUE)) \subseteq Bits(Pack(im.lab, im.inst, 1, FALSE))
OnlyTrained == at = 0 => \A i \in 1..Len(tree) : \A b \in Bits(Pack(tree[i].lab, <<>>, 2, FALSE)) : b[2] \in {0, 11}
AllDone == <>Finished
=============================================================================
