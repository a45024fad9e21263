------------------------------ MODULE MCPipeline ------------------------------
EXTENDS Pipeline
CONSTANT Big
vars == <<countVars, corrVars, pipeVars>>
Im(h, w, V) == [1..h -> [1..w -> V]]
Base == [ds |-> "cs", edge |-> <<>>, seg |-> <<>>, inst |-> <<>>, pred |-> <<>>, gts |-> <<>>, cat |-> 1, sn |-> 1, sd |-> 1, thr |-> <<500>>, tn |-> 1, td |-> 10,
         thin |-> FALSE, kill |-> FALSE, skip |-> FALSE, nms |-> FALSE, supp |-> <<>>, radius |-> 1]
(* packed bits of categories 1, 2, 10 and 18 *)
Packed == IF Big THEN {0, 1, 2 + 512, 131072} ELSE {0, 1, 513}
Cats == IF Big THEN {1, 2, 10, 18} ELSE {1, 10}
Flat(h, w, v) == [y \in 1..h |-> [x \in 1..w |-> v]]
Dot(h, w, p, v) == [y \in 1..h |-> [x \in 1..w |-> IF p = <<y, x>> THEN v ELSE 0]]
Small == {[Base EXCEPT !.edge = e, !.pred = p, !.cat = c, !.sn = s[1], !.sd = s[2], !.seg = g[1], !.kill = g[2]]
          : e \in Im(2, 2, Packed), p \in Im(2, 1, {0, 128}), c \in Cats, s \in {<<1, 1>>, <<1, 2>>, <<3, 4>>},
            g \in {<<Flat(2, 2, 0), FALSE>>, <<Flat(2, 2, 0), TRUE>>, <<Flat(4, 2, 1), TRUE>>, <<Dot(2, 2, <<2, 2>>, 9), TRUE>>}}
Bordered == {[Base EXCEPT !.ds = d, !.edge = Dot(12, 13, q, 1), !.pred = Flat(h[1], h[2], 255), !.seg = Flat(12, 13, 1), !.kill = TRUE, !.sn = s[1], !.sd = s[2]]
             : d \in {"cs", "sbd"}, q \in {<<6, 6>>, <<1, 3>>}, h \in {<<12, 13>>, <<6, 7>>}, s \in {<<1, 1>>, <<1, 2>>}}
Drawing == {[Base EXCEPT !.ds = "otf", !.seg = g, !.inst = IF i THEN [y \in 1..3 |-> [x \in 1..3 |-> IF y = 2 THEN 24001 ELSE g[y][x]]] ELSE <<>>, !.pred = Flat(3, 3, 255), !.cat = 12]
            : g \in Im(3, 3, IF Big THEN {2, 24, 26} ELSE {3, 24}), i \in BOOLEAN}
Several == {[Base EXCEPT !.ds = "bsds", !.pred = p, !.gts = <<g, k>>] : p \in Im(2, 2, {0, 255}), g \in Im(2, 2, {0, 1}), k \in {Flat(2, 2, 0), Dot(2, 2, <<1, 2>>, 1)}}
Init == /\ elig = {} /\ todo = {} /\ right = {} /\ ow = 0 /\ best = <<>> /\ Idle
        /\ \E r \in Small \cup Bordered \cup Drawing \cup Several : PipeStart(r)
Next == PipeNext /\ UNCHANGED corrVars
Spec == Init /\ [][Next]_vars
Ready == pst \in {"ready", "count"}
SizesAgree == Ready => /\ SameShape(pmap, IF req.ds = "bsds" THEN req.gts[1] ELSE plane)
                       /\ req.kill => SameShape(pmap, mask)
(* at full scale nothing is lost or moved *)
FullScale == (Ready /\ req.sn = req.sd /\ req.ds = "cs") => \A p \in Cell(plane) : (plane[p[1]][p[2]] = 1) = (BitOf(req.edge[p[1]][p[2]], req.cat - 1) = 1)
(* a scaled plane shows only what some source pixel shows *)
NothingInvented == (Ready /\ req.ds = "cs") => (Px(plane) # {} => \E p \in Cell(req.edge) : BitOf(req.edge[p[1]][p[2]], req.cat - 1) = 1)
BorderCleared == Ready => \A p \in Cell(pmap) : (req.ds = "sbd" /\ ~Inner(p[1], p[2], Rows(pmap), Cols(pmap), 5)) => pmap[p[1]][p[2]] = 0
BorderOnly == (Ready /\ req.ds # "bsds") => \A p \in Cell(pmap) : (req.ds # "sbd" \/ Inner(p[1], p[2], Rows(pmap), Cols(pmap), 5)) => pmap[p[1]][p[2]] \in {0, 128000, 255000}
FlatKept == (Ready /\ req.ds = "cs" /\ Rows(req.edge) = 12) => \A p \in Cell(pmap) : pmap[p[1]][p[2]] = 255000
(* drawn ground truth belongs to the category's own outline: nothing without the label, nothing in the middle of nowhere *)
DrawnRight == (pst = "count" /\ req.ds = "otf") => (Px(plane) # {} => \E p \in Cell(req.seg) : req.seg[p[1]][p[2]] = 24)
Finished == stage = "done" => /\ Len(tally) = Len(req.thr)
                             /\ \A i \in 1..Len(tally) : tally[i].crLo <= tally[i].crHi /\ tally[i].crHi <= tally[i].sr
Terminates == <>(stage = "done")
=============================================================================
