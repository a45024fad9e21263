------------------------------ MODULE MCLabels ------------------------------
(* all 1x3 maps over four labels with every table of up to MaxT entries, and   *)
(* every instance list of up to three instances                                *)
EXTENDS Labels
CONSTANTS MaxT
V == 0..3
Imgs == {<<r>> : r \in [1..3 -> V]}
Tables == UNION {{[q \in 1..n |-> <<k[q], v[q]>>] : k \in {f \in [1..n -> V] : \A a, b \in 1..n : f[a] = f[b] => a = b}, v \in [1..n -> {0, 1, 7}]} : n \in 1..MaxT}
Perms == UNION {{t \in [1..n -> 0..2] : \A a, b \in 1..n : t[a] = t[b] => a = b} : n \in 1..3}
CatLists == UNION {[1..n -> 1..2] : n \in 0..3}
Init == \/ \E g \in Imgs, t \in Tables : LabelStart([kind |-> "map", img |-> g, table |-> t])
        \/ \E k \in {f \in [1..2 -> 0..2] : f[1] # f[2]}, v \in {<<0, 1>>, <<1, 0>>}, s \in [1..3 -> {<<<<0, 1>>>>, <<<<1, 1>>>>, <<<<0, 0>>>>}] :
             LabelStart([kind |-> "planes", stack |-> s, table |-> [q \in 1..2 |-> <<k[q], v[q]>>]])
        \/ \E g \in Imgs, l \in Perms : LabelStart([kind |-> "onehot", img |-> g, labels |-> l])
        \/ \E g \in Imgs, c \in CatLists, p \in {<<>>, <<1>>, <<2>>, <<2, 1>>, <<1, 2>>} :
             LabelStart([kind |-> "number", img |-> g, cats |-> c, present |-> p])
        \/ \E h \in 1..5, w \in 1..5, b \in 0..3 : LabelStart([kind |-> "border", img |-> Const(h, w, 1), width |-> b, id |-> 9])
Spec == Init /\ [][LabelNext]_labelVars
K == job.kind
(* every pixel is relabelled at most once and ends at its own label's entry *)
OncePerPixel == [][(K \in {"map", "number"}) =>
  \A p \in Cell(acc) : acc'[p[1]][p[2]] = acc[p[1]][p[2]] \/ acc[p[1]][p[2]] = (StartAcc(job)[p[1]][p[2]])]_labelVars
MapRight == (K = "map" /\ Converted) => \A p \in Cell(job.img) :
  LET E == {q \in 1..Len(job.table) : job.table[q][1] = job.img[p[1]][p[2]]}
  IN IF E = {} THEN acc[p[1]][p[2]] = Other ELSE \A q \in E : acc[p[1]][p[2]] = job.table[q][2]
PlanesRight == (K = "planes" /\ Converted) => \A q \in 1..Len(job.table) : acc[job.table[q][2] + 1] = job.stack[job.table[q][1] + 1]
OneHotPartition == K = "onehot" => \A p \in Cell(job.img) :
  Cardinality({q \in 1..Len(acc) : acc[q][p[1]][p[2]] = 1}) <= 1
OneHotComplete == (K = "onehot" /\ Converted) => \A p \in Cell(job.img), q \in 1..Len(job.labels) :
  (acc[q][p[1]][p[2]] = 1) = (job.img[p[1]][p[2]] = job.labels[q])
(* numbering: instances keep distinct numbers whose thousands are their category *)
NumbersDistinct == (K = "number" /\ Converted) => \A p, q \in Cell(job.img) :
  LET a == acc[p[1]][p[2]] b == acc[q[1]][q[2]] IN (a = b /\ a # 0) => job.img[p[1]][p[2]] = job.img[q[1]][q[2]]
NumbersOfCategory == (K = "number" /\ Converted) => \A p \in Cell(job.img) :
  LET v == job.img[p[1]][p[2]] a == acc[p[1]][p[2]]
  IN IF v \in 1..Len(job.cats) /\ \E j \in 1..Len(job.present) : job.present[j] = job.cats[v]
     THEN a \div 1000 = job.cats[v] /\ a % 1000 = Cardinality({u \in 1..(v - 1) : job.cats[u] = job.cats[v]})
     ELSE a = 0
BorderRight == (K = "border" /\ Converted) => \A p \in Cell(job.img) :
  (acc[p[1]][p[2]] = job.id) = (p[1] <= job.width \/ p[2] <= job.width \/ p[1] > Rows(acc) - job.width \/ p[2] > Cols(acc) - job.width)
TablesBijective == \A t \in {CityscapesTable, SbdTable} : \A a, b \in 1..Len(t) : (t[a][1] = t[b][1] \/ t[a][2] = t[b][2]) => a = b
=============================================================================
