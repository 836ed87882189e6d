-------------------------------- MODULE FReal --------------------------------
(* Binary floating point for TLC: <<m, e>> is m * 2^e with 2^14 <= |m| < 2^15, zero is <<0,0>>.
   Every operation is good to about 2^-14 relative.  Used where a real-valued result of the
   code is compared with the value its definition gives. *)
EXTENDS Integers, Sequences
LOCAL AbsR(x) == IF x < 0 THEN -x ELSE x
RZero == <<0, 0>>
RECURSIVE RNorm(_, _)
RNorm(m, e) == IF m = 0 THEN RZero
               ELSE IF AbsR(m) >= 32768 THEN (IF AbsR(m) >= 16777216 THEN RNorm(m \div 512, e + 9) ELSE RNorm((m + 1) \div 2, e + 1))
               ELSE IF AbsR(m) < 16384 THEN RNorm(m * 2, e - 1)
               ELSE <<m, e>>
RInt(n) == RNorm(n, 0)
RMul(a, b) == RNorm(a[1] * b[1], a[2] + b[2])
RNeg(a) == <<-a[1], a[2]>>
RAbs(a) == <<AbsR(a[1]), a[2]>>
RDivide(a, b) == IF b[1] < 0 THEN RNorm(-((a[1] * 32768) \div (-b[1])), a[2] - b[2] - 15)
                 ELSE RNorm((a[1] * 32768) \div b[1], a[2] - b[2] - 15)
RQuot(n, d) == RDivide(RInt(n), RInt(d))
RAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[2] - b[2] > 15 THEN a ELSE IF b[2] - a[2] > 15 THEN b
              ELSE IF a[2] >= b[2] THEN RNorm(a[1] * 2^(a[2]-b[2]) + b[1], b[2])
              ELSE RNorm(b[1] * 2^(b[2]-a[2]) + a[1], a[2])
RSub(a, b) == RAdd(a, RNeg(b))
RLe(a, b) == RSub(a, b)[1] <= 0
RPi == <<25736, -13>>
RPow(a, n) == LET RECURSIVE P(_) P(k) == IF k = 0 THEN RInt(1) ELSE RMul(a, P(k-1)) IN P(n)
\* |a - b| <= |b| * 2^-k
RNear(a, b, k) == LET d == RSub(a, b) IN d[1] = 0 \/ RLe(RAbs(d), <<AbsR(b[1]), b[2] - k>>)
\* within 2^-k absolutely
RClose(a, b, k) == LET d == RSub(a, b) IN d[1] = 0 \/ RLe(RAbs(d), RNorm(1, -k))
\* square root by Newton steps from a power of two
RSqrt(a) == IF a[1] <= 0 THEN RZero
            ELSE LET RECURSIVE W(_, _) W(x, k) == IF k = 0 THEN x ELSE W(RMul(<<16384, -15>>, RAdd(x, RDivide(a, x))), k-1)
                 IN W(<<16384, (a[2] + 14) \div 2 - 14>>, 5)
\* fixed point with 2^s units of one, and back
RFix(x, s) == RNorm(x, -s)
RECURSIVE RShift(_, _)
RShift(m, k) == IF k >= 0 THEN m * 2^k ELSE IF k < -20 THEN 0 ELSE LET d == 2^(-k) IN (2*m + d) \div (2*d)
RToFix(a, s) == RShift(a[1], a[2] + s)
\* exp(-x / 2^20), x >= 0
RExpNeg(x) ==
  LET n == x \div 726817
      r == (x % 726817) \div 64            \* in units of 2^-14, below ln 2
      q == RNorm(r, -14)
      t(k, s) == RSub(RInt(1), RMul(RDivide(q, RInt(k)), s))
      p == t(1, t(2, t(3, t(4, t(5, t(6, RInt(1)))))))
  IN IF n > 200 THEN RZero ELSE <<p[1], p[2] - n>>
RSum(F(_), n) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN RZero ELSE RAdd(F(i), S(i-1)) IN S(n)
=============================================================================
