------------------------------- MODULE Labels -------------------------------
(* Conversions between label spaces, one table entry / instance / border line  *)
(* at a time.  job = [kind, ...]:                                              *)
(*   "map"    img, table (sequence of <<label, training label>>)               *)
(*   "planes" stack (planes numbered by label from 0), table                   *)
(*   "onehot" img, labels                                                      *)
(*   "number" img (instance i of the list has value i), cats, present          *)
(*   "border" img, width, id                                                   *)
EXTENDS Grid, Datasets
VARIABLES job, i, acc, seen
labelVars == <<job, i, acc, seen>>
Other == 255
Const(h, w, v) == [y \in 1..h |-> [x \in 1..w |-> v]]
StartAcc(j) ==
  CASE j.kind = "map" -> Const(Rows(j.img), Cols(j.img), Other)
    [] j.kind = "planes" -> [t \in 1..Len(j.table) |-> Zeros(Rows(j.stack[1]), Cols(j.stack[1]))]
    [] j.kind = "onehot" -> <<>>
    [] j.kind = "number" -> Zeros(Rows(j.img), Cols(j.img))
    [] j.kind = "border" -> j.img
LabelStart(j) == job = j /\ i = 0 /\ acc = StartAcc(j) /\ seen = [c \in {} |-> 0]
Steps == CASE job.kind \in {"map", "planes"} -> Len(job.table)
           [] job.kind = "onehot" -> Len(job.labels)
           [] job.kind = "number" -> Len(job.cats)
           [] job.kind = "border" -> job.width
Where(img, v, new, old) == [y \in 1..Rows(img) |-> TLCEval([x \in 1..Cols(img) |-> IF img[y][x] = v THEN new ELSE old[y][x]])]
Entry == /\ i < Steps /\ i' = i + 1
         /\ CASE job.kind = "map" -> acc' = Where(job.img, job.table[i + 1][1], job.table[i + 1][2], acc) /\ UNCHANGED seen
              [] job.kind = "planes" -> acc' = [acc EXCEPT ![job.table[i + 1][2] + 1] = job.stack[job.table[i + 1][1] + 1]] /\ UNCHANGED seen
              [] job.kind = "onehot" -> acc' = Append(acc, MapImg(job.img, LAMBDA v : IF v = job.labels[i + 1] THEN 1 ELSE 0)) /\ UNCHANGED seen
              [] job.kind = "number" ->
                   LET c == job.cats[i + 1]
                       n == IF c \in DOMAIN seen THEN seen[c] ELSE 0
                   IN IF \E p \in 1..Len(job.present) : job.present[p] = c
                      THEN acc' = Where(job.img, i + 1, c * 1000 + n, acc) /\ seen' = (c :> (n + 1)) @@ seen
                      ELSE UNCHANGED <<acc, seen>>
              [] job.kind = "border" ->   \* the (i+1)-th frame from outside
                   /\ acc' = [y \in 1..Rows(acc) |-> TLCEval([x \in 1..Cols(acc) |->
                        IF y = i + 1 \/ x = i + 1 \/ y = Rows(acc) - i \/ x = Cols(acc) - i THEN job.id ELSE acc[y][x]])]
                   /\ UNCHANGED seen
         /\ UNCHANGED job
LabelNext == Entry
Converted == i = Steps
=============================================================================
