------------------------------ MODULE FHistOps ------------------------------
EXTENDS Lat, FFix, FReal, TLC
(* Which bins a bond may be counted in.  -1 stands for "outside the axis".  Boundaries are
   half open; where the code's arithmetic cannot be exact both sides are allowed. *)
Out == -1
\* coordinate x/h on an axis of n bins with edges (lo + i*w)/4, everything integer
LinAdm(x, h, ax, exact) ==
  LET a == 4*x - h*ax.lo
      i == a \div (h*ax.w)
      at == a % (h*ax.w) = 0
      bin(j) == IF j \in 0..ax.n-1 THEN j ELSE Out
  IN IF at /\ ~exact THEN { bin(i-1), bin(i) } ELSE { bin(i) }
\* a distance whose square is d2 on an axis whose edges are (lo + i*w)/4
DistAdm(d2, ax, exact) ==
  LET e(i) == ax.lo + i*ax.w
      below(i) == 16*d2 < e(i)*e(i)
      on(i) == 16*d2 = e(i)*e(i)
  IN IF below(0) THEN {Out}
     ELSE LET RECURSIVE F(_)
              F(i) == IF i = ax.n THEN Out ELSE IF below(i+1) THEN i ELSE F(i+1)
              i == F(0)
              prev == IF i = Out THEN ax.n - 1 ELSE IF i = 0 THEN Out ELSE i - 1
              low == IF i = Out THEN ax.n ELSE i
          IN IF on(low) /\ ~exact THEN {i, prev} ELSE {i}
Compass == TLCEval([n \in 1..16 |-> TLCEval([j \in 0..n |-> TLCEval(<<CosT((TURN*j) \div n), SinT((TURN*j) \div n)>>)])])
CrossZ(u, v) == u[1]*v[2] - u[2]*v[1]
Size1(w) == Abs(w[1]) + Abs(w[2])
\* angle of the plane vector w among n sectors of the full turn
AngAdm(w, n) ==
  LET E(j) == Compass[n][j]
      tol == 16 * Size1(w)
  IN IF n = 1 \/ Size1(w) = 0 THEN 0..n-1
     ELSE { j \in 0..n-1 : CrossZ(E(j), w) >= -tol /\ CrossZ(w, E(j+1)) >= -tol }
\* polar angle of v among n bins of half a turn
PolAdm(v, n) ==
  LET big == Sq(v) >= 30000
      r == IF big THEN ISqrt(Sq(v) * 64) ELSE ISqrt(Sq(v) * 4096)
      z == v[3] * (IF big THEN 8 ELSE 64)
      C(j) == Compass[2*n][j][1]
      tol == 16 * r + 2*ONE
  IN { j \in 0..n-1 : z*ONE <= C(j)*r + tol /\ z*ONE >= C(j+1)*r - tol }
------------------------------------------------------------------------------
(* Rational rotations: a plane rotation <<c, s, h>> with c^2 + s^2 = h^2 turns by the angle
   whose cosine is c/h; an integer quaternion <<a, b, c, d>> acts as a rotation after division by
   its squared norm. *)
Rot2(g, v) == <<g[1]*v[1] - g[2]*v[2], g[2]*v[1] + g[1]*v[2]>>
Inv2(g) == <<g[1], -g[2], g[3]>>
QNorm(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
QConj(q) == <<q[1], -q[2], -q[3], -q[4]>>
QRot(q, v) ==
  LET w == q[1]  x == q[2]  y == q[3]  z == q[4] IN
  << (w*w + x*x - y*y - z*z)*v[1] + 2*(x*y - w*z)*v[2] + 2*(x*z + w*y)*v[3],
     2*(x*y + w*z)*v[1] + (w*w - x*x + y*y - z*z)*v[2] + 2*(y*z - w*x)*v[3],
     2*(x*z - w*y)*v[1] + 2*(y*z + w*x)*v[2] + (w*w - x*x - y*y + z*z)*v[3] >>
QMul(a, b) == << a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
                 a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
                 a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
                 a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>
=============================================================================
