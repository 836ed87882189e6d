-------------------------- MODULE FDiffractionOps --------------------------
EXTENDS Lat, FFix, FReal, TLC
\* sin(x)/x and J0(x) in units of 1/ONE, x given as turns in units of 1/TURN
\* (near 0 by 1 - x^2/6, where the quotient of two small numbers would be too coarse)
Sinc(t) == IF t < 2048 THEN ONE - (t*t) \div 39838 ELSE RToFix(RDivide(RFix(SinT(t), 14), RMul(RMul(RInt(2), RPi), RFix(t, 16))), 14)
\* J0(x) is the mean of cos(x sin a) over a; M points of a quarter turn are exact while x < 4M
J0(t, M) ==
  LET c(j) == CosT(FMul(t, SinT((j * 16384) \div M)))
      RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE 2*c(j) + S(j-1)
  IN RDiv(c(0) + S(M-1) + c(M), 2*M)
\* transform of points binned on a G x G grid: table over frequencies, as <<re, im>> times ONE
Unit(G) == [j \in 0..G-1 |-> <<CosT((TURN*j) \div G), SinT((TURN*j) \div G)>>]
Amp(G, U, pts, wts, f) ==
  LET ph(i) == U[(f[1]*pts[i][1] + f[2]*pts[i][2]) % G]
      RECURSIVE S(_, _) S(i, k) == IF i = 0 THEN 0 ELSE wts[i]*ph(i)[k] + S(i-1, k)
  IN <<S(Len(pts), 1), -S(Len(pts), 2)>>
Power(G, U, pts, wts, f) == LET a == Amp(G, U, pts, wts, f)  x == RFix(a[1], 14)  y == RFix(a[2], 14) IN RAdd(RMul(x, x), RMul(y, y))
=============================================================================
