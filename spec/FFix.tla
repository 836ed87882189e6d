-------------------------------- MODULE FFix --------------------------------
(* Fixed-point real arithmetic for TLC: a real x is the integer round(x * ONE).
   Arguments of FMul stay below 8 in magnitude for the second factor.  Functions are good to
   a few units of 1/ONE; angles are fractions of a full turn in units of 1/TURN. *)
EXTENDS Integers, Sequences
ONE == 16384
TURN == 65536
LOCAL AbsF(x) == IF x < 0 THEN -x ELSE x
RDiv(a, b) == (2*a + b) \div (2*b)                 \* rounded quotient, b > 0
FMul(a, b) == (a \div ONE) * b + RDiv((a % ONE) * b, ONE)
\* sin of a quarter turn: x in 0..ONE is the fraction of the quarter
QSin(x) == LET y == FMul(x, x)
               p == FMul(y, FMul(y, FMul(y, -77) + 1306) - 10581) + 25736
           IN FMul(p, x)
SinT(t) == LET a == t % TURN IN
   CASE a <= 16384 -> QSin(a)
     [] a <= 32768 -> QSin(32768 - a)
     [] a <= 49152 -> -QSin(a - 32768)
     [] OTHER -> -QSin(65536 - a)
CosT(t) == SinT(t + 16384)
\* integer square root
RECURSIVE ISqB(_, _, _)
ISqB(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= x \div m THEN ISqB(x, m, hi) ELSE ISqB(x, lo, m)
ISqrt(x) == IF x <= 0 THEN 0 ELSE ISqB(x, 0, 46341)
\* radians (scaled ONE) to turns: x * TURN / (2 pi ONE), 2 pi ONE = 102943.7, ratio 0.63661977
RadToTurn(x) == LET w == x \div 102944  r == x % 102944 IN w * TURN + RDiv(r * 10430, 16384) + r \div 43340
=============================================================================
