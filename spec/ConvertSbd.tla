----------------------------- MODULE ConvertSbd -----------------------------
(* Conversion of SBD samples: every call writes the boundaries of one sample,   *)
(* from its segmentations or, for re-annotated ones, from its stored            *)
(* boundaries; a whole data set is a set of such calls in any order.            *)
EXTENDS Scene
(* samples: sequence of [name, seg, inst, icats, present]; inst holds 0 or the   *)
(* number of an entry of icats                                                  *)
(* again:   sequence of [name, dir, cls, inst, present]: planes packed in bits   *)
(* calls:   sequence of [kind, name, dir, radius, thin, segs, suffix (record)]   *)
VARIABLES samples, again, calls, todo, files
sbdVars == <<samples, again, calls, todo, files>>
Border == 5
Marker == 21
Inside(y, x, h, w) == y > Border /\ x > Border /\ y <= h - Border /\ x <= w - Border
Marked(seg) == [y \in 1..Rows(seg) |-> TLCEval([x \in 1..Cols(seg) |-> IF Inside(y, x, Rows(seg), Cols(seg)) THEN seg[y][x] ELSE Marker])]
(* instances are numbered within their category, in order                       *)
Number(s, i) == s.icats[i] * 1000 + Cardinality({j \in 1..(i - 1) : s.icats[j] = s.icats[i]})
Numbered(s) == With([i \in 1..Len(s.icats) |-> Number(s, i)], LAMBDA n :
                 MapImg(s.inst, LAMBDA v : IF v \in DOMAIN n THEN n[v] ELSE 0))
TrainOf(v) == IF v >= 1 /\ v <= 20 THEN v - 1 ELSE 255
Planes(seg, ins, r, thin) ==
  With([c \in LabelsIn(seg) \cap 1..20 |-> SceneEdge(seg, ins, c, {Marker}, 1, r, thin)], LAMBDA f :
    [y \in 1..Rows(seg) |-> TLCEval([x \in 1..Cols(seg) |-> SumOver(DOMAIN f, [c \in DOMAIN f |-> IF <<y, x>> \in f[c] THEN 2 ^ (c - 1) ELSE 0])])])
Bit(v, k) == (v \div (2 ^ k)) % 2
Joined(a, b, cats) == [y \in 1..Rows(a) |-> TLCEval([x \in 1..Cols(a) |->
                        SumOver(1..20, [c \in 1..20 |-> IF Bit(a[y][x], c - 1) = 1 \/ (c \in cats /\ Bit(b[y][x], c - 1) = 1) THEN 2 ^ (c - 1) ELSE 0])])]
Range(s) == {s[j] : j \in 1..Len(s)}
SampleOf(c) == samples[CHOOSE i \in 1..Len(samples) : samples[i].name = c.name]
AgainOf(c) == again[CHOOSE i \in 1..Len(again) : again[i].name = c.name /\ again[i].dir = c.dir]
Radius(c) == IF c.thin THEN 1 ELSE c.radius
KindsOf(c) == {"edge", "isedge"} \cup (IF c.kind = "original" /\ c.segs THEN {"label", "train", "inst"} ELSE {})
PathOf(c, v) == c.name \o c.suffix[v]
Content(c, v) ==
  IF c.kind = "again"
  THEN LET s == AgainOf(c) IN IF v = "edge" THEN s.cls ELSE Joined(s.cls, s.inst, Range(s.present))
  ELSE With(SampleOf(c), LAMBDA s : With(Marked(s.seg), LAMBDA m :
         CASE v = "edge" -> Planes(m, <<>>, Radius(c), c.thin)
           [] v = "isedge" -> With(Numbered(s), LAMBDA n : Planes(m, n, Radius(c), c.thin))
           [] v = "label" -> m
           [] v = "train" -> MapImg(m, TrainOf)
           [] OTHER -> Numbered(s)))

(* the calls a conversion of the whole data set makes                           *)
OriginalSuffix(kind) == [edge |-> "_" \o kind \o "_edge.png", isedge |-> "_" \o kind \o "_isedge.png", label |-> "_labelIds.png", train |-> "_trainIds.png",
                         inst |-> "_instanceIds.png"]
AgainSuffix(kind) == [edge |-> "_reanno_" \o kind \o "_edge.png", isedge |-> "_reanno_" \o kind \o "_isedge.png"]
Whole(names, rawList, thinList) ==
  {[kind |-> "original", name |-> n, dir |-> "", radius |-> 2, thin |-> t, segs |-> ~t, suffix |-> OriginalSuffix(IF t THEN "thin" ELSE "raw")] : n \in names, t \in BOOLEAN}
  \cup {[kind |-> "again", name |-> n, dir |-> "raw", radius |-> 2, thin |-> FALSE, segs |-> FALSE, suffix |-> AgainSuffix("raw")] : n \in rawList}
  \cup {[kind |-> "again", name |-> n, dir |-> "thin", radius |-> 2, thin |-> FALSE, segs |-> FALSE, suffix |-> AgainSuffix("thin")] : n \in thinList}

(* pieces of a sequence of calls are written call by call; those of a set in any order *)
SbdStart(ss, as, cs) == samples = ss /\ again = as /\ calls = cs /\ todo = cs /\ files = [p \in {} |-> <<>>]
Call(c) == /\ c \in todo /\ todo' = todo \ {c}
           /\ files' = [p \in DOMAIN files \cup {PathOf(c, v) : v \in KindsOf(c)} |->
                          IF \E v \in KindsOf(c) : PathOf(c, v) = p THEN Content(c, CHOOSE v \in KindsOf(c) : PathOf(c, v) = p) ELSE files[p]]
           /\ UNCHANGED <<samples, again, calls>>
Finished == todo = {}
=============================================================================
