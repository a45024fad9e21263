------------------------------ MODULE Thinning ------------------------------
(* Morphological thinning as the two-pass state machine of Guo and Hall.     *)
(* One action per pass; every pixel of a pass is decided from the image the  *)
(* pass started with.                                                        *)
EXTENDS Grid

VARIABLES img,      \* the map being thinned (rows of 0/1)
          phase,    \* "one", "two" or "done"
          iters,    \* completed iterations
          changed,  \* did the first pass of this iteration delete anything
          limit     \* iteration limit, -1 when there is none

thinVars == <<img, phase, iters, changed, limit>>

(* neighbours 1..8 of a pixel, from east counter-clockwise; 9 is 1 again *)
Nb(m, y, x) == <<At(m, y, x + 1), At(m, y - 1, x + 1), At(m, y - 1, x),
                 At(m, y - 1, x - 1), At(m, y, x - 1), At(m, y + 1, x - 1),
                 At(m, y + 1, x), At(m, y + 1, x + 1), At(m, y, x + 1)>>

B2I(b) == IF b THEN 1 ELSE 0

G1(n) ==   B2I(n[1] = 0 /\ (n[2] = 1 \/ n[3] = 1))
         + B2I(n[3] = 0 /\ (n[4] = 1 \/ n[5] = 1))
         + B2I(n[5] = 0 /\ (n[6] = 1 \/ n[7] = 1))
         + B2I(n[7] = 0 /\ (n[8] = 1 \/ n[9] = 1)) = 1

G2(n) == LET a == Max2(n[1], n[2]) + Max2(n[3], n[4]) + Max2(n[5], n[6]) + Max2(n[7], n[8])
             b == Max2(n[2], n[3]) + Max2(n[4], n[5]) + Max2(n[6], n[7]) + Max2(n[8], n[9])
             m == Min2(a, b)
         IN m >= 2 /\ m <= 3

G3a(n) == ~((n[2] = 1 \/ n[3] = 1 \/ n[8] = 0) /\ n[1] = 1)
G3b(n) == ~((n[6] = 1 \/ n[7] = 1 \/ n[4] = 0) /\ n[5] = 1)

Pass(m0, G3(_)) == With(m0, LAMBDA m :
  [y \in 1..Rows(m) |-> TLCEval([x \in 1..Cols(m) |->
     IF m[y][x] = 0 THEN 0
     ELSE LET n == Nb(m, y, x) IN IF G3(n) /\ G1(n) /\ G2(n) THEN 0 ELSE 1])])

Pass1(m) == Pass(m, G3a)
Pass2(m) == Pass(m, G3b)

ThinStart(m, lim) ==
  /\ img = Binary(m) /\ iters = 0 /\ changed = FALSE /\ limit = lim
  /\ phase = IF lim = 0 THEN "done" ELSE "one"

FirstPass ==
  /\ phase = "one"
  /\ img' = Pass1(img)
  /\ changed' = (img' # img)
  /\ phase' = "two"
  /\ UNCHANGED <<iters, limit>>

SecondPass ==
  /\ phase = "two"
  /\ img' = Pass2(img)
  /\ changed' = FALSE
  /\ LET any == changed \/ img' # img
     IN IF ~any THEN phase' = "done" /\ iters' = iters
        ELSE /\ iters' = iters + 1
             /\ phase' = IF iters + 1 = limit THEN "done" ELSE "one"
  /\ UNCHANGED limit

ThinNext == FirstPass \/ SecondPass

(* the same machine run to completion, for modules that use thinning as one step *)
RECURSIVE ThinRun(_, _)
ThinRun(m, lim) ==
  IF lim = 0 THEN m
  ELSE LET t == Pass2(Pass1(m)) IN IF t = m THEN m ELSE ThinRun(t, lim - 1)
Thin(m) == ThinRun(Binary(m), -1)
=============================================================================
