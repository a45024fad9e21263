-------------------------------- MODULE Fixed --------------------------------
(* Fixed-point arithmetic on rates: a rate is an integer multiple of 1/U.     *)
EXTENDS Integers, Sequences, FiniteSets
U == 10000000

(* floor(a * 10^7 / b) by long division *)
RECURSIVE LongDiv(_, _, _, _)
LongDiv(q, r, b, n) == IF n = 0 THEN q ELSE LongDiv(q * 10 + (r * 10) \div b, (r * 10) % b, b, n - 1)
Frac(a, b) == LongDiv(a \div b, a % b, b, 7)

(* floor(p * q / s) for 0 <= p, q <= U and 0 < s <= 2U, digit by digit *)
Pow10 == <<10000000, 1000000, 100000, 10000, 1000, 100, 10, 1>>
RECURSIVE MulDivFrom(_, _, _, _, _, _)
MulDivFrom(p, q, s, i, quo, rem) ==
  IF i > 8 THEN quo
  ELSE LET d == (p \div Pow10[i]) % 10
           t == rem * 10 + d * q
       IN MulDivFrom(p, q, s, i + 1, quo * 10 + t \div s, t % s)
MulDiv(p, q, s) == MulDivFrom(p, q, s, 1, 0, 0)

(* a rate as numerator / denominator, 0 when nothing was counted *)
Rate(a, b) == IF b = 0 THEN 0 ELSE Frac(a, b)
FScore(p, r) == IF p + r = 0 THEN 0 ELSE 2 * MulDiv(p, r, p + r)
(* a/b <= c/d without large products (Euclid): compare whole parts, then turned-over remainders *)
RECURSIVE FracLeq(_, _, _, _)
FracLeq(a, b, c, d) == IF a \div b # c \div d THEN a \div b < c \div d
                       ELSE IF a % b = 0 THEN TRUE ELSE IF c % d = 0 THEN FALSE
                       ELSE FracLeq(d, c % d, b, a % b)
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
=============================================================================
