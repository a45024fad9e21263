--------------------------------- MODULE Nms ---------------------------------
(* Non-maximum suppression along an orientation map, followed by a fade-out   *)
(* at the border.  Strengths are integers, directions are <<cos, sin>> pairs  *)
(* scaled by P; sample values are therefore scaled by P*P.                    *)
EXTENDS Grid, TLC

CONSTANT P             \* 1000 or 512: scale of positions and directions

(* upper clamp of a sample position: size - 1.001 *)
HiClamp(n) == (n * P * 1000 - 1001 * P) \div 1000
Clamp(v, n) == IF v < 0 \/ n < 2 THEN 0 ELSE IF v > HiClamp(n) THEN HiClamp(n) ELSE v

(* bilinear sample at the 0-based scaled position <<Y, X>>, scaled by P*P *)
Sample(e, Y, X) ==
  LET y == Clamp(Y, Rows(e))  x == Clamp(X, Cols(e))
      y0 == y \div P          x0 == x \div P
      fy == y % P             fx == x % P
      y1 == Min2(y0 + 1, Rows(e) - 1)
      x1 == Min2(x0 + 1, Cols(e) - 1)
  IN e[y0+1][x0+1] * ((P - fx) * (P - fy)) + e[y0+1][x1+1] * (fx * (P - fy))
     + e[y1+1][x0+1] * ((P - fx) * fy) + e[y1+1][x1+1] * (fx * fy)

Steps(r) == {d \in -r..r : d # 0}

(* strongest sample seen from pixel p along its direction *)
At0(e, p, dir, d) == Sample(e, (p[1] - 1) * P + d * dir[2], (p[2] - 1) * P + d * dir[1])

(* e[p]*m compared with a sample; mP = multiplier * P * P.                     *)
(* "keep", "drop" or, within a positive `margin`, "either"; a tie keeps        *)
Compare(ep, mP, smp, margin) ==
  IF ep * mP > smp + margin \/ (margin = 0 /\ ep * mP = smp) THEN "keep" ELSE IF ep * mP < smp - margin THEN "drop" ELSE "either"

Fate(e, p, dir, r, mP, Margin(_)) ==
  IF e[p[1]][p[2]] = 0 THEN "drop"
  ELSE LET F == {Compare(e[p[1]][p[2]], mP, At0(e, p, dir, d), Margin(d)) : d \in Steps(r)}
       IN IF "drop" \in F THEN "drop" ELSE IF "either" \in F THEN "either" ELSE "keep"

(* linear attenuation towards the border: numerator; denominator is s*s        *)
FadeWidth(s, h, w) == Min2(s, Min2(w \div 2, h \div 2))
Fade1(i, n, s) == IF s <= 0 THEN 1
                  ELSE LET k == Min2(i - 1, n - i) IN IF k < s THEN k ELSE s
FadeDen(s) == IF s <= 0 THEN 1 ELSE s * s
FadeNum(p, h, w, s) == Fade1(p[1], h, s) * Fade1(p[2], w, s)

(* ------------------------------------------------------------ as machine ---*)
VARIABLES strength, dirs, kept, stage
nmsVars == <<strength, dirs, kept, stage>>

NmsStart(e, o) == strength = e /\ dirs = o /\ kept = e /\ stage = "suppress"
Suppress(r, mP) ==
  /\ stage = "suppress" /\ stage' = "fade"
  /\ kept' = [y \in 1..Rows(strength) |-> [x \in 1..Cols(strength) |->
               IF Fate(strength, <<y, x>>, dirs[y][x], r, mP, LAMBDA d : 0) = "drop" THEN 0 ELSE strength[y][x]]]
  /\ UNCHANGED <<strength, dirs>>
(* values are now scaled by FadeDen(s) *)
Fade(s0) ==
  /\ stage = "fade" /\ stage' = "done"
  /\ LET h == Rows(strength)  w == Cols(strength)  s == FadeWidth(s0, h, w)
     IN kept' = [y \in 1..h |-> [x \in 1..w |-> kept[y][x] * FadeNum(<<y, x>>, h, w, s)]]
  /\ UNCHANGED <<strength, dirs>>

(* --------------------------------------------- smoothing and orientation ---*)
(* symmetric extension of a sequence index *)
RECURSIVE Mirror(_, _)
Mirror(i, n) == IF i < 1 THEN Mirror(1 - i, n) ELSE IF i > n THEN Mirror(2 * n + 1 - i, n) ELSE i

(* unnormalised triangle weights: r=1 -> 1 2 1, r=4 -> 1 2 3 4 5 4 3 2 1       *)
Tri(r, k) == r + 1 - Abs(k)
RECURSIVE TriSum(_, _, _, _)
TriSum(row, i, r, k) == IF k > r THEN 0
                        ELSE Tri(r, k) * row[Mirror(i + k, Len(row))] + TriSum(row, i, r, k + 1)
ConvRows(img0, r) == With(img0, LAMBDA img :
  [y \in 1..Rows(img) |-> TLCEval([x \in 1..Cols(img) |-> TriSum(img[y], x, r, -r)])])
Transpose(img0) == With(img0, LAMBDA img : [x \in 1..Cols(img) |-> TLCEval([y \in 1..Rows(img) |-> img[y][x]])])
(* scaled by (r+1)^4 *)
ConvTri(img, r) == Transpose(ConvRows(Transpose(ConvRows(img, r)), r))
TriDen(r) == (r + 1) * (r + 1) * (r + 1) * (r + 1)

(* twice the gradient along the rows *)
GradRow(row) == [i \in 1..Len(row) |-> IF i = 1 THEN 2 * (row[2] - row[1])
                   ELSE IF i = Len(row) THEN 2 * (row[i] - row[i - 1])
                   ELSE row[i + 1] - row[i - 1]]
GradX(img0) == With(img0, LAMBDA img : [y \in 1..Rows(img) |-> TLCEval(GradRow(img[y]))])
GradY(img) == Transpose(GradX(Transpose(img)))

(* scale two integers down together until both are below 2^14 *)
RECURSIVE Shrink(_, _)
Shrink(a, b) == IF Abs(a) < 16384 /\ Abs(b) < 16384 THEN <<a, b>>
                ELSE Shrink(a \div 2, b \div 2)
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

(* direction whose tangent is t/u, scaled by P *)
Direction(t, u) ==
  LET q == Shrink(t * Sgn(u), Abs(u))
      n == Isqrt(q[1] * q[1] + q[2] * q[2])
  IN IF n = 0 THEN <<P, 0>> ELSE <<(q[2] * P) \div n, (q[1] * P) \div n>>
=============================================================================
