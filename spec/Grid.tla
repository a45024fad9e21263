-------------------------------- MODULE Grid --------------------------------
(* Images as sequences of rows of integers, pixels as <<row, column>> pairs  *)
(* (1-based), and the integer geometry every other module builds on.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Op(v) with v evaluated once (TLC evaluates operator arguments by name) *)
With(v, Op(_)) == CHOOSE y \in {TLCEval(Op(x)) : x \in {TLCEval(v)}} : TRUE

Rows(img) == Len(img)
Cols(img) == IF Len(img) = 0 THEN 0 ELSE Len(img[1])

Cell(img) == (1..Rows(img)) \X (1..Cols(img))

(* value of a pixel, 0 outside the image *)
At(img, y, x) == IF y >= 1 /\ y <= Len(img) /\ x >= 1 /\ x <= Len(img[1])
                 THEN img[y][x] ELSE 0

SameShape(a, b) == /\ Len(a) = Len(b)
                   /\ \A y \in 1..Len(a) : Len(a[y]) = Len(b[y])

Zeros(h, w) == [y \in 1..h |-> [x \in 1..w |-> 0]]

MapImg(img0, Op(_)) == With(img0, LAMBDA img :
  [y \in 1..Rows(img) |-> TLCEval([x \in 1..Cols(img) |-> Op(img[y][x])])])

Binary(img) == MapImg(img, LAMBDA v : IF v = 0 THEN 0 ELSE 1)

(* set of non-zero pixels *)
Px(img) == {p \in Cell(img) : img[p[1]][p[2]] # 0}

FromPx(h, w, S0) == With(S0, LAMBDA S :
  [y \in 1..h |-> TLCEval([x \in 1..w |-> IF <<y, x>> \in S THEN 1 ELSE 0])])

Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])

RECURSIVE SumSeq(_)
SumSeq(s) == IF Len(s) = 0 THEN 0 ELSE s[1] + SumSeq(Tail(s))

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0
                 ELSE LET e == CHOOSE x \in S : TRUE IN f[e] + SumOver(S \ {e}, f)

(* floor of the square root, by bisection *)
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2
                           IN IF m * m <= n THEN IsqrtIn(n, m, hi) ELSE IsqrtIn(n, lo, m)
Isqrt(n) == IsqrtIn(n, 0, 46341)

(* 8-connected neighbourhood and the number of 8-connected components *)
Near8(S, p) == {q \in S : Abs(q[1] - p[1]) <= 1 /\ Abs(q[2] - p[2]) <= 1}
RECURSIVE Grow(_, _)
Grow(S, C) == LET N == UNION {Near8(S, p) : p \in C} \cup C
              IN IF N = C THEN C ELSE Grow(S, N)
RECURSIVE NumComp(_)
NumComp(S) == IF S = {} THEN 0
              ELSE LET p == CHOOSE q \in S : TRUE
                   IN 1 + NumComp(S \ Grow(S, {p}))

(* nearest-neighbour resampling used by the image library: target pixel i of  *)
(* n takes source floor((i + 1/2) * m / n)                                    *)
NearestIdx(i, n, m) == ((2 * i - 1) * m) \div (2 * n) + 1
Resample(img0, h, w) == With(img0, LAMBDA img :
  [y \in 1..h |-> TLCEval([x \in 1..w |->
     img[NearestIdx(y, h, Rows(img))][NearestIdx(x, w, Cols(img))]])])

(* failed-clause bookkeeping shared by all trace specifications *)
Clause(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================
