----------------------------- MODULE MCConvertSbd -----------------------------
EXTENDS ConvertSbd
CONSTANT Wide
(* images of 11 or 12 columns: one row of two or three pixels stays unmarked     *)
Free == IF Wide THEN 3 ELSE 2
H == 2 * Border + 1
W == 2 * Border + Free
Cat == {0, 3, 20}
Put(f, out) == [y \in 1..H |-> [x \in 1..W |-> IF Inside(y, x, H, W) THEN f[x - Border] ELSE out]]
Segs == {Put(f, o) : f \in [1..Free -> Cat], o \in {0, 3}}
Insts == {Put(g, 0) : g \in [1..Free -> 0..2]}
Sample(n, s, i, ic) == [name |-> n, seg |-> s, inst |-> i, icats |-> ic, present |-> <<3, 20>>]
Suffixes == [edge |-> "_e", isedge |-> "_i", label |-> "_l", train |-> "_t", inst |-> "_n"]
Direct(r, t, sg) == [kind |-> "original", name |-> "a", dir |-> "", radius |-> r, thin |-> t, segs |-> sg, suffix |-> Suffixes]
Again(n, d, x, y) == [name |-> n, dir |-> d, cls |-> x, inst |-> y, present |-> <<3>>]
A2 == <<<<0, 4, 524288>>>>
B2 == <<<<4, 524292, 524289>>>>
Singles == {[ss |-> <<Sample("a", s, i, ic)>>, as |-> <<>>, cs |-> {Direct(q[1], q[2], q[3])}]
            : s \in Segs, i \in Insts, ic \in {<<3, 3>>, <<20, 3>>}, q \in IF Wide THEN {1, 2} \X BOOLEAN \X {TRUE} ELSE {<<2, FALSE, TRUE>>, <<2, TRUE, FALSE>>}}
Trees == {[ss |-> <<Sample("a", Put([k \in 1..Free |-> 3], 0), Put([k \in 1..Free |-> k % 3], 0), <<3, 3>>), Sample("b", s, Put([k \in 1..Free |-> 1], 0), <<20>>)>>,
           as |-> <<Again("a", "raw", A2, B2), Again("a", "thin", B2, A2)>>, cs |-> Whole({"a", "b"}, rl, {"a"})] : s \in Segs, rl \in {{}, {"a"}}}
Init == \E q \in Singles \cup Trees : SbdStart(q.ss, q.as, q.cs)
Next == \E c \in todo : Call(c)
Spec == Init /\ [][Next]_sbdVars /\ WF_sbdVars(Next)
Wanted == UNION {{<<c, v>> : v \in KindsOf(c)} : c \in calls}
Confluent == Finished => /\ DOMAIN files = {PathOf(w[1], w[2]) : w \in Wanted}
                         /\ \A w \in Wanted : files[PathOf(w[1], w[2])] = Content(w[1], w[2])
NoClash == \A w, x \in Wanted : w # x => PathOf(w[1], w[2]) # PathOf(x[1], x[2])
Bits(img) == UNION {{<<p, k>> : k \in {j \in 0..19 : Bit(img[p[1]][p[2]], j) = 1}} : p \in Cell(img)}
Fresh == todo = calls
Originals == {c \in calls : c.kind = "original"}
(* instances only add to boundaries that are not thinned *)
SensitiveAdds == Fresh => \A c \in Originals : ~c.thin => Bits(Content(c, "edge")) \subseteq Bits(Content(c, "isedge"))
(* nothing drawn for categories without unmarked pixels *)
OnlyShown == Fresh => \A c \in Originals : \A v \in {"edge", "isedge"} : \A b \in Bits(Content(c, v)) :
               \E p \in Cell(SampleOf(c).seg) : Inside(p[1], p[2], H, W) /\ SampleOf(c).seg[p[1]][p[2]] = b[2] + 1
(* the marked border is not a boundary partner: a uniform interior has no insensitive boundary at all *)
Uniform(s) == \E k \in Cat : \A p \in Cell(s.seg) : Inside(p[1], p[2], H, W) => s.seg[p[1]][p[2]] = k
BorderIgnored == Fresh => \A c \in Originals : (Uniform(SampleOf(c)) /\ c.segs) => Bits(Content(c, "edge")) = {}
(* training labels and label map say the same *)
MapsAgree == Fresh => \A c \in Originals : c.segs => \A p \in Cell(SampleOf(c).seg) :
               LET l == Content(c, "label")[p[1]][p[2]] t == Content(c, "train")[p[1]][p[2]] IN (t = 255 <=> l \in {0, 21}) /\ (t # 255 => t = l - 1)
Distinct == Fresh => \A c \in Originals : \A i, j \in 1..Len(SampleOf(c).icats) : i # j => Number(SampleOf(c), i) # Number(SampleOf(c), j)
JoinedRight == Fresh => \A c \in calls \ Originals :
  /\ Bits(Content(c, "edge")) \subseteq Bits(Content(c, "isedge"))
  /\ \A b \in Bits(Content(c, "isedge")) \ Bits(Content(c, "edge")) : (b[2] + 1) \in Range(AgainOf(c).present)
AllDone == <>Finished
=============================================================================
