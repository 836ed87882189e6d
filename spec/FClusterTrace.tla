---------------------------- MODULE FClusterTrace ----------------------------
EXTENDS TraceBase, FFix
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
C == INSTANCE FCluster WITH Nodes <- {}, MaxBonds <- 0, bonds <- 0, todo <- 0, cls <- 0
B == T[ep]
\* bonds of a ball query (radius doubled), as <<query point, point>> from 1
Pairs(n, m) == [k \in 1..n*m |-> LET i == (k-1) \div m IN <<i + 1, k - i*m>>]
Within(e, b) == 4 * Sq(Wrap(e.box, Sub(e.P[b[2]], e.Q[b[1]]))) < e.r2 * e.r2
BallBonds(e, excl) == SelectSeq(Pairs(Len(e.Q), Len(e.P)), LAMBDA b : ~(excl /\ b[1] = b[2]) /\ Within(e, b))
Bonds(e) == IF e.r2 > 0 THEN BallBonds(e, TRUE) ELSE [k \in 1..Len(e.q) |-> <<e.q[k]+1, e.p[k]+1>>]
Count(s, x) == Cardinality({ k \in 1..Len(s) : s[k] = x })
SameBag(a, b) == SortSeq(a, <) = SortSeq(b, <)
MembersOf(e, c) == SelectSeq([i \in 1..e.n |-> i], LAMBDA i : e.idx[i] = c)
ClusterV(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.idx) # e.n \/ Len(e.ckeys) # e.num THEN {"lengths"}
  ELSE If(C!NumberingOK(C!Components(e.n, Bonds(e)), e.idx, e.num), "connected components")
       \cup If(\A c \in 0..e.num-1 : LET m == MembersOf(e, c) IN
                 SameBag(e.ckeys[c+1], [k \in 1..Len(m) |-> e.keys[m[k]]]), "cluster keys")

\* ---- properties of clusters ----
PickC(e, c) == SelectSeq([i \in 1..Len(e.lab) |-> i], LAMBDA i : e.lab[i] = c)
U == 256                                      \* fixed point of recorded lengths
Delta(box, e, i, c) == LET d == [j \in 1..3 |-> e.P[i][j] * U - c[j]] IN d
BigBox(box) == [box EXCEPT !.L = <<box.L[1]*U, box.L[2]*U, IF box.d = 2 THEN 1 ELSE box.L[3]*U>>, !.bx = box.bx*U, !.cx = box.cx*U, !.cy = box.cy*U]
\* wrap of a fixed-point vector through the exact wrap of the box enlarged U times is too big for
\* 32 bits; wrap in the unsheared coordinates instead
WrapF(box, d) ==
  LET kz == IF box.d = 2 \/ ~box.per[3] THEN 0 ELSE RDiv(d[3], box.L[3]*U)
      y == d[2] - kz*box.cy*U
      x == d[1] - kz*box.cx*U
      z == IF box.d = 2 THEN 0 ELSE d[3] - kz*box.L[3]*U
      y0 == y - (IF box.d = 2 THEN 0 ELSE (box.cy * z) \div box.L[3])
      ky == IF ~box.per[2] THEN 0 ELSE RDiv(y0, box.L[2]*U)
      y1 == y - ky*box.L[2]*U
      y01 == y0 - ky*box.L[2]*U
      xa == x - ky*box.bx*U
      x0 == xa - (IF box.d = 2 THEN 0 ELSE (box.cx * z) \div box.L[3]) - (box.bx * y01) \div box.L[2]
      kx == IF ~box.per[1] THEN 0 ELSE RDiv(x0, box.L[1]*U)
  IN [v |-> <<xa - kx*box.L[1]*U, y1, z>>,
      safe |-> /\ Abs(2*(x0 - kx*box.L[1]*U)) < box.L[1]*U - 16
               /\ Abs(2*y01) < box.L[2]*U - 16
               /\ (box.d = 2 \/ Abs(2*z) < box.L[3]*U - 16)]
Tensor == {<<1,1>>, <<1,2>>, <<1,3>>, <<2,2>>, <<2,3>>, <<3,3>>}
Outer(v, a) == v[a[1]] * v[a[2]]
InertiaOf(v, a) == IF a[1] = a[2] THEN Sq(v) - v[a[1]]*v[a[1]] ELSE -Outer(v, a)
\* lengths in the second moments are used in units 1/128 so that sums fit
Coarse(v) == <<RDiv(v[1], 2), RDiv(v[2], 2), RDiv(v[3], 2)>>
Near(a, b, tol) == Abs(a - b) <= tol
OneC(e, c) ==
  LET m == PickC(e, c)
      n == Len(m)
      ms == [k \in 1..n |-> e.mass[m[k]]]
      W == SumSeq(ms)
      o == e.out[c+1]
      dims == Dirs(B.box)
      un == [k \in 1..n |-> WrapF(B.box, Delta(B.box, e, m[k], o.centre))]
      wt == [k \in 1..n |-> WrapF(B.box, Delta(B.box, e, m[k], o.com))]
      R == Max2(Max2(B.box.L[1], B.box.L[2]), B.box.L[3]) * 128
  IN IF n = 0 THEN {} ELSE
     If(o.size = n, "size") \cup If(o.mass = W, "mass")
     \cup If(\A i \in dims : C!CentreOK([k \in 1..n |-> e.f[m[k]][i]], [k \in 1..n |-> 1], o.fcentre[i], 12), "centre")
     \cup If(\A i \in dims : C!CentreOK([k \in 1..n |-> e.f[m[k]][i]], ms, o.fcom[i], 12), "centre of mass")
     \cup If(B.box.d = 2 => o.centre[3] = 0 /\ o.com[3] = 0, "centre out of the plane")
     \cup If((\A k \in 1..n : un[k].safe) =>
              \A a \in Tensor : Near(o.gyr[a[1]][a[2]] * n, SumSeq([k \in 1..n |-> Outer(Coarse(un[k].v), a)]), n*2*R + n) /\ o.gyr[a[2]][a[1]] = o.gyr[a[1]][a[2]], "gyration tensor")
     \cup If((\A k \in 1..n : wt[k].safe) =>
              /\ \A a \in Tensor : Near(o.inertia[a[1]][a[2]], SumSeq([k \in 1..n |-> ms[k] * InertiaOf(Coarse(wt[k].v), a)]), W*4*R) /\ o.inertia[a[2]][a[1]] = o.inertia[a[1]][a[2]]
              /\ Near(o.rg2 * W, SumSeq([k \in 1..n |-> ms[k] * Sq(Coarse(wt[k].v))]), W*4*R), "inertia tensor or radius of gyration")
PropsV(e) ==
  IF e.bad # "" THEN If(e.exc # "", "accepted: " \o e.bad)
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF ~e.shapes \/ Len(e.out) # 1 + (CHOOSE x \in SeqSet(e.lab) : \A y \in SeqSet(e.lab) : y <= x) THEN {"array shapes"}
  ELSE UNION { OneC(e, c) : c \in 0..Len(e.out)-1 }

\* ---- interface ----
InterfaceV(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE LET b == IF e.r2 > 0 THEN BallBonds(e, FALSE) ELSE Bonds(e) IN
    If(SeqSet(e.pids) = { b[k][2]-1 : k \in 1..Len(b) }, "point ids")
    \cup If(SeqSet(e.qids) = { b[k][1]-1 : k \in 1..Len(b) }, "query point ids")
    \cup If(\A k \in 1..Len(e.pids)-1 : e.pids[k] < e.pids[k+1], "point ids sorted")
    \cup If(\A k \in 1..Len(e.qids)-1 : e.qids[k] < e.qids[k+1], "query point ids sorted")
    \cup If(e.pc = Len(e.pids) /\ e.qc = Len(e.qids), "counts")
Verdict(e) == CASE e.op = "cluster" -> ClusterV(e) [] e.op = "props" -> PropsV(e) [] e.op = "interface" -> InterfaceV(e)
                [] OTHER -> {"unknown event"}
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
