--------------------------------- MODULE Lat ---------------------------------
(* Integer lattices: the arithmetic shared by every module.

   A box is a record [L, bx, cx, cy, d, per, ex] with lattice vectors
       a1 = (L1,0,0)   a2 = (bx,L2,0)   a3 = (cx,cy,L3)
   in integer units; in 2D L3 = 1 and cx = cy = 0.  per[i] says whether direction i
   is periodic.  ex says that the real code's arithmetic on this box is exact (all
   lengths powers of two); when it is not, a point closer to a face than float32 can
   resolve may legitimately be put on either side. *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Add(u, v) == <<u[1]+v[1], u[2]+v[2], u[3]+v[3]>>
Sub(u, v) == <<u[1]-v[1], u[2]-v[2], u[3]-v[3]>>
Neg(u) == <<-u[1], -u[2], -u[3]>>
Mul(k, u) == <<k*u[1], k*u[2], k*u[3]>>
Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Sq(u) == u[1]*u[1] + u[2]*u[2] + u[3]*u[3]
Cross(u, v) == <<u[2]*v[3]-u[3]*v[2], u[3]*v[1]-u[1]*v[3], u[1]*v[2]-u[2]*v[1]>>
Zero == <<0,0,0>>

\* the lattice translation n1 a1 + n2 a2 + n3 a3
Lattice(b, n) == <<n[1]*b.L[1] + n[2]*b.bx + n[3]*b.cx,
                   n[2]*b.L[2] + n[3]*b.cy,
                   IF b.d = 2 THEN 0 ELSE n[3]*b.L[3]>>

\* Numerators of the unsheared coordinates: y0 = Y0/L3, x0 = X0/(L2 L3)
Y0(b, v) == v[2]*b.L[3] - b.cy*v[3]
X0(b, v) == v[1]*b.L[2]*b.L[3] - b.bx*Y0(b, v) - b.cx*v[3]*b.L[2]
\* Fractional coordinate i is Fr(b,v)[i] / FrDen(b)[i]; inside the box is [0, 1)
FrDen(b) == <<2*b.L[1]*b.L[2]*b.L[3], 2*b.L[2]*b.L[3], 2*b.L[3]>>
Fr(b, v) == <<2*X0(b, v) + b.L[1]*b.L[2]*b.L[3], 2*Y0(b, v) + b.L[2]*b.L[3],
              IF b.d = 2 THEN 0 ELSE 2*v[3] + b.L[3]>>
\* the integer cell a vector lies in
Cell(b, v) == [i \in 1..3 |-> Fr(b, v)[i] \div FrDen(b)[i]]
PerOnly(b, n) == [i \in 1..3 |-> IF b.per[i] THEN n[i] ELSE 0]
WrapN(b, v) == PerOnly(b, Cell(b, v))
Wrap(b, v) == Sub(v, Lattice(b, WrapN(b, v)))
InBox(b, v) == \A i \in 1..3 : b.per[i] => Cell(b, v)[i] = 0

\* Cells the real code may assign to v: the exact one, and, where float32 cannot
\* resolve the distance to a face, the neighbouring one as well.
NearFace(b) == [i \in 1..3 |-> (FrDen(b)[i] \div 100000)]
CellsOf(b, v, i) ==
  LET f == Fr(b, v)[i]  m == FrDen(b)[i]  c == f \div m  r == f % m IN
    IF b.ex \/ (i = 3 /\ b.d = 2) THEN {c}
    ELSE {c} \cup (IF r <= NearFace(b)[i] THEN {c-1} ELSE {})
             \cup (IF m - r <= NearFace(b)[i] THEN {c+1} ELSE {})
WrapSet(b, v) ==
  LET S(i) == IF b.per[i] THEN CellsOf(b, v, i) ELSE {0} IN
    { Sub(v, Lattice(b, <<n1, n2, n3>>)) : n1 \in S(1), n2 \in S(2), n3 \in S(3) }
ImageSet(b, v) ==
    { <<n1, n2, n3>> : n1 \in CellsOf(b, v, 1), n2 \in CellsOf(b, v, 2), n3 \in CellsOf(b, v, 3) }

\* squared minimum-image distance over the 27 (9) nearest images of the wrapped vector
ImgRange(b, i) == IF b.per[i] /\ ~(i = 3 /\ b.d = 2) THEN -1..1 ELSE {0}
MinImage2(b, v) ==
  LET w == Wrap(b, v)
      D == { Sq(Add(w, Lattice(b, <<i, j, k>>))) :
               i \in ImgRange(b, 1), j \in ImgRange(b, 2), k \in ImgRange(b, 3) }
  IN CHOOSE m \in D : \A x \in D : m <= x

\* Squared plane spacings as rationals num/den (areas of faces): h_i = vol / |a_j x a_k|
Vol(b) == b.L[1]*b.L[2]*b.L[3]
A1(b) == <<b.L[1], 0, 0>>
A2(b) == <<b.bx, b.L[2], 0>>
A3(b) == IF b.d = 2 THEN <<0, 0, 1>> ELSE <<b.cx, b.cy, b.L[3]>>
Dirs(b) == IF b.d = 2 THEN 1..2 ELSE 1..3
FaceSq(b, i) == CASE i = 1 -> Sq(Cross(A2(b), A3(b)))
                  [] i = 2 -> Sq(Cross(A3(b), A1(b)))
                  [] OTHER -> Sq(Cross(A1(b), A2(b)))
\* 4 r2 < h_i^2 for every direction, r2 a squared length (integer)
BelowHalfPlane(b, r2) == \A i \in Dirs(b) : 4*r2 <= (Vol(b)*Vol(b) - 1) \div FaceSq(b, i)     \* without overflow

SeqSet(s) == { s[i] : i \in 1..Len(s) }
Sum(f) == LET RECURSIVE S(_)
              S(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + S(D \ {x})
          IN S(DOMAIN f)
SumSeq(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i-1) IN S(Len(s))
If(c, name) == IF c THEN {} ELSE {name}     \* a verdict clause: names itself when broken
=============================================================================
