------------------------------ MODULE FOrderOps ------------------------------
(* Bond-angle averages, relative rotations, fourth-rank tensors (O01-O03, E01, E02). *)
EXTENDS FHistOps
\* ---- complex numbers in fixed point ----
CMul(a, b) == <<FMul(a[1], b[1]) - FMul(a[2], b[2]), FMul(a[1], b[2]) + FMul(a[2], b[1])>>
RECURSIVE CPow(_, _)
CPow(z, k) == IF k = 0 THEN <<ONE, 0>> ELSE IF k % 2 = 1 THEN CMul(z, TLCEval(CPow(z, k-1))) ELSE LET h == TLCEval(CPow(z, k \div 2)) IN CMul(h, h)
UnitXY(v) == LET r == RSqrt(RInt(v[1]*v[1] + v[2]*v[2])) IN
             IF v[1] = 0 THEN <<0, IF v[2] > 0 THEN ONE ELSE -ONE>> ELSE IF v[2] = 0 THEN <<IF v[1] > 0 THEN ONE ELSE -ONE, 0>>
             ELSE <<RToFix(RDivide(RInt(v[1]), r), 14), RToFix(RDivide(RInt(v[2]), r), 14)>>
\* exp(i k theta) of an integer plane vector
Phase(v, k) == LET z == TLCEval(UnitXY(v)) IN TLCEval(CPow(z, k))
CSum(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN <<0, 0>> ELSE LET r == S(i-1) IN <<r[1] + s[i][1], r[2] + s[i][2]>> IN S(Len(s))
\* ---- rotations given by integer quaternions ----
QRe(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4]           \* Re(conj(a) b)
\* cosine of half the rotation angle, n the product of the squared norms
HalfCos(s, n) == IF s = 0 THEN 0 ELSE IF s*s = n THEN (IF s > 0 THEN ONE ELSE -ONE)
                 ELSE RToFix(RDivide(RInt(s), RSqrt(RInt(n))), 14)
\* the best over the group: largest cosine of the half angle; exact is set when it is a whole turn or none
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
SepCos(ref, q, eqs) == MaxOf({ HalfCos(QRe(ref, QMul(q, eqs[i])), QNorm(ref)*QNorm(q)*QNorm(eqs[i])) : i \in 1..Len(eqs) })
\* a set of integer quaternions closed under products, up to scale
SameRay(a, b) == \E m, n \in 1..24 : \A k \in 1..4 : m*a[k] = n*b[k]
IsGroup(S) == \A a, b \in S : \E c \in S : SameRay(QMul(a, b), c)
\* character of degree l over l+1: U_l(s), s^2 = u
RECURSIVE UPoly(_, _)
UPoly(l, u) == IF l = 0 THEN <<0 - ONE, ONE>>                 \* U_{l-2}, U_l ; U_{-2} = -1
               ELSE LET p == TLCEval(UPoly(l - 2, u)) IN <<p[2], FMul(p[2], 4*u - 2*ONE) - p[1]>>
Character(l, u) == RDiv(UPoly(l, u)[2], l + 1)
\* ---- fourth-rank tensors, 81 entries, index 27a+9b+3c+d+1 ----
Dlt(a, b) == IF a = b THEN 1 ELSE 0
Digits(k) == LET j == k - 1 IN <<j \div 27, (j \div 9) % 3, (j \div 3) % 3, j % 3>>
Dg == TLCEval([k \in 1..81 |-> Digits(k)])
R4 == TLCEval([k \in 1..81 |-> LET d == Dg[k] IN RDiv(2*ONE*(Dlt(d[1],d[2])*Dlt(d[3],d[4]) + Dlt(d[1],d[3])*Dlt(d[2],d[4]) + Dlt(d[1],d[4])*Dlt(d[2],d[3])), 5)])
Axes == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
\* 2 sum v (x) v (x) v (x) v over the rotated axes, for an integer quaternion
Quart(q) == LET V == [a \in 1..3 |-> QRot(q, Axes[a])]  n == QNorm(q)  n4 == n*n*n*n
                p(a, d) == V[a][d[1]+1] * V[a][d[2]+1] * V[a][d[3]+1] * V[a][d[4]+1]
            IN TLCEval([k \in 1..81 |-> LET d == Dg[k]  s == p(1, d) + p(2, d) + p(3, d) IN
                   ((2*s) \div n4) * ONE + RDiv(((2*s) % n4) * ONE, n4)])
\* the same for a quaternion in fixed point
FRotAxis(q, a) ==
  LET w == q[1] x == q[2] y == q[3] z == q[4] IN
  CASE a = 1 -> <<FMul(w,w) + FMul(x,x) - FMul(y,y) - FMul(z,z), 2*(FMul(x,y) + FMul(w,z)), 2*(FMul(x,z) - FMul(w,y))>>
    [] a = 2 -> <<2*(FMul(x,y) - FMul(w,z)), FMul(w,w) - FMul(x,x) + FMul(y,y) - FMul(z,z), 2*(FMul(y,z) + FMul(w,x))>>
    [] OTHER -> <<2*(FMul(x,z) + FMul(w,y)), 2*(FMul(y,z) - FMul(w,x)), FMul(w,w) - FMul(x,x) - FMul(y,y) + FMul(z,z)>>
FQuart(q) == LET V == TLCEval([a \in 1..3 |-> FRotAxis(q, a)])
                 p(a, d) == FMul(FMul(V[a][d[1]+1], V[a][d[2]+1]), FMul(V[a][d[3]+1], V[a][d[4]+1]))
             IN TLCEval([k \in 1..81 |-> 2*(p(1, Dg[k]) + p(2, Dg[k]) + p(3, Dg[k]))])
TMinus(s, t) == TLCEval([k \in 1..81 |-> s[k] - t[k]])
TSq(s) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE FMul(s[k], s[k]) + S(k-1) IN S(81)
\* 1 - |G - C|^2 / |C|^2, both in fixed point
OrderOf(C, G) == ONE - RToFix(RDivide(RInt(TSq(TMinus(G, C))), RInt(TSq(C))), 14)
TMean(ts) == LET n == Len(ts)  t(k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE ts[i][k] + S(i-1) IN S(n)
             IN TLCEval([k \in 1..81 |-> RDiv(t(k), n)])
=============================================================================
