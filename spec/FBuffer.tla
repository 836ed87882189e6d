------------------------------- MODULE FBuffer -------------------------------
(* Periodic images around a box (P01) and replicated unit cells (U01).

   Skin mode: the buffer box has the tilts of the box and lengths L + 2b (b given doubled:
   b2), so a point lies in it when its unsheared coordinates do.
   Image mode: lattice vector i becomes (1+n_i) a_i and every image 0..n_i is present,
   wrapped into that box. *)
EXTENDS Lat, TLC

CeilDiv(a, b) == (a + b - 1) \div b
Big(b, n) == [b EXCEPT !.L = <<(1+n[1])*b.L[1], (1+n[2])*b.L[2], IF b.d = 2 THEN 1 ELSE (1+n[3])*b.L[3]>>,
                       !.bx = (1+n[2])*b.bx, !.cx = (1+n[3])*b.cx, !.cy = (1+n[3])*b.cy,
                       !.per = <<TRUE, TRUE, TRUE>>]
Axis(b, n) == IF b.d = 2 THEN {0} ELSE n
\* unsheared coordinates (doubled numerators) against the half lengths of the buffer box
SkinNum(b, v) == <<2*X0(b, v), 2*Y0(b, v), 2*v[3]>>
SkinHalf(b, b2) == <<(b.L[1]+b2[1])*b.L[2]*b.L[3], (b.L[2]+b2[2])*b.L[3], b.L[3]+b2[3]>>
InSkin(b, b2, v) == \A i \in Dirs(b) : -SkinHalf(b, b2)[i] <= SkinNum(b, v)[i] /\ SkinNum(b, v)[i] < SkinHalf(b, b2)[i]
OnSkin(b, b2, v) == \E i \in Dirs(b) : Abs(Abs(SkinNum(b, v)[i]) - SkinHalf(b, b2)[i]) <= SkinHalf(b, b2)[i] \div 100000
SkinReach(b, b2) == <<CeilDiv(b2[1], 2*b.L[1]) + 1, CeilDiv(b2[2], 2*b.L[2]) + 1, IF b.d = 2 THEN 0 ELSE CeilDiv(b2[3], 2*b.L[3]) + 1>>
Cands(b, b2, incl) == LET r == SkinReach(b, b2) IN
   { s \in (-r[1]..r[1]) \X (-r[2]..r[2]) \X (-r[3]..r[3]) : incl \/ s # <<0,0,0>> }
\* pairs <<position, id>>
SkinMust(b, b2, P, incl) == UNION { { <<Add(P[i], Lattice(b, s)), i-1>> : s \in { s \in Cands(b, b2, incl) :
     LET v == Add(P[i], Lattice(b, s)) IN InSkin(b, b2, v) /\ (b.ex \/ ~OnSkin(b, b2, v)) } } : i \in 1..Len(P) }
SkinMay(b, b2, P, incl) == UNION { { <<Add(P[i], Lattice(b, s)), i-1>> : s \in { s \in Cands(b, b2, incl) :
     LET v == Add(P[i], Lattice(b, s)) IN InSkin(b, b2, v) \/ (~b.ex /\ OnSkin(b, b2, v)) } } : i \in 1..Len(P) }
ImageShifts(b, n, incl) == { s \in (0..n[1]) \X (0..n[2]) \X Axis(b, 0..n[3]) : incl \/ s # <<0,0,0>> }
\* modulo the buffer box
ImageSetOf(b, n, P, incl) == UNION { { <<Wrap(Big(b, n), Add(P[i], Lattice(b, s))), i-1>> : s \in ImageShifts(b, n, incl) } : i \in 1..Len(P) }
\* replicas of a unit cell: fractional positions in units 1/D of the cell, n replicas
Replicas(f, D, n) == { <<(f[1] + i*D) % (n[1]*D), (f[2] + j*D) % (n[2]*D), (f[3] + k*D) % (n[3]*D)>> :
                       i \in 0..n[1]-1, j \in 0..n[2]-1, k \in 0..n[3]-1 }
------------------------------------------------------------------------------
(* Design check: slide one point through its cell; the buffers of every size contain each
   image exactly once, grow with the buffer, and do not depend on the wrapped copy chosen. *)
CONSTANTS Boxes, Bufs
VARIABLES box, v, buf
vars == <<box, v, buf>>
MCInit == box \in Boxes /\ v = Zero /\ buf = <<0,0,0>>
Step == {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>}
MCNext == \/ \E d \in Step : (box.d = 2 => d[3] = 0) /\ v' = Wrap(box, Add(v, d)) /\ UNCHANGED <<box, buf>>
          \/ \E c \in Bufs : buf' = c /\ UNCHANGED <<box, v>>
MCSpec == MCInit /\ [][MCNext]_vars
Skin(b2, incl) == SkinMust([box EXCEPT !.ex = TRUE], b2, <<v>>, incl)
MCInv ==
  LET n == <<buf[1] \div 3, buf[2] \div 3, IF box.d = 2 THEN 0 ELSE buf[3] \div 3>>
      img == ImageSetOf(box, n, <<v>>, TRUE) IN
  /\ Cardinality(img) = (1+n[1])*(1+n[2])*(1+n[3])
  /\ Cardinality(ImageSetOf(box, n, <<v>>, FALSE)) = Cardinality(img) - 1
  /\ \A x \in img : Wrap(box, x[1]) = v
  /\ Skin(<<0,0,0>>, TRUE) = {<<v, 0>>}
  /\ Skin(buf, FALSE) = Skin(buf, TRUE) \ {<<v, 0>>}
  /\ \A c \in Bufs : (\A i \in 1..3 : c[i] <= buf[i]) => Skin(c, TRUE) \subseteq Skin(buf, TRUE)
  \* a skin of half a box on each side holds every image once per doubled cell
  /\ Cardinality(Skin(<<2*box.L[1], 2*box.L[2], 2*box.L[3]>>, TRUE)) = (IF box.d = 2 THEN 9 ELSE 27)
=============================================================================
