---------------------------- MODULE FBufferTrace ----------------------------
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
F == INSTANCE FBuffer WITH Boxes <- {}, Bufs <- {}, box <- 0, v <- 0, buf <- 0
B == T[ep]
Near(a, b, tol) == Abs(a - b) <= tol
Pairs(e) == { <<e.pts[k], e.ids[k]>> : k \in 1..Len(e.ids) }
BoxOK(e, L2) == e.bd = B.box.d /\ (\A i \in Dirs(B.box) : e.bL2[i] = L2[i])
                /\ Near(e.tilt[1] * B.box.L[2], B.box.bx * 1000000, 3 * B.box.L[2])
                /\ (B.box.d = 3 => Near(e.tilt[2] * B.box.L[3], B.box.cx * 1000000, 3 * B.box.L[3])
                                   /\ Near(e.tilt[3] * B.box.L[3], B.box.cy * 1000000, 3 * B.box.L[3]))
Skin(e) ==
  LET b2 == e.b2  got == Pairs(e) IN
  If(BoxOK(e, [i \in 1..3 |-> 2*(B.box.L[i] + b2[i])]), "buffer box")
  \cup If(Cardinality(got) = Len(e.ids), "an image listed twice")
  \cup If(F!SkinMust(B.box, b2, e.P, e.incl) \subseteq got, "missing image")
  \cup If(got \subseteq F!SkinMay(B.box, b2, e.P, e.incl), "extra image")
Image(e) ==
  LET n == <<e.n[1], e.n[2], IF B.box.d = 2 THEN 0 ELSE e.n[3]>>
      big == F!Big(B.box, n)
      got == { <<Wrap(big, x[1]), x[2]>> : x \in Pairs(e) } IN
  If(BoxOK(e, [i \in 1..3 |-> 2*big.L[i]]), "buffer box")
  \cup If(Cardinality(got) = Len(e.ids), "an image listed twice")
  \cup If(got = F!ImageSetOf(B.box, n, e.P, e.incl), "images")
  \cup If(\A x \in Pairs(e) : x[1] \in WrapSet([big EXCEPT !.ex = e.bigex], x[1]), "inside the buffer box")
BufferV(e) ==
  IF e.bad # "" THEN If(e.exc # "", "accepted: " \o e.bad)
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF Len(e.pts) # Len(e.ids) THEN {"lengths"}
  ELSE IF \E k \in 1..Len(e.ids) : NONINT \in SeqSet(e.pts[k]) THEN {"not an image"}
  ELSE IF e.images THEN Image(e) ELSE Skin(e)

\* predefined cells: dimension, lengths and tilts in millionths, basis in D-ths
Cube(basis, D) == [d |-> 3, L |-> <<1000000, 1000000, 1000000>>, t |-> <<0,0,0>>, D |-> D, basis |-> basis]
Plane(lx, ly, xy, basis, D) == [d |-> 2, L |-> <<lx, ly, 0>>, t |-> <<xy, 0, 0>>, D |-> D, basis |-> basis]
Named(n) ==
  CASE n = "sc" -> Cube(<<<<0,0,0>>>>, 2)
    [] n = "bcc" -> Cube(<<<<0,0,0>>, <<1,1,1>>>>, 2)
    [] n = "fcc" -> Cube(<<<<0,0,0>>, <<1,1,0>>, <<1,0,1>>, <<0,1,1>>>>, 2)
    [] n = "hcp" -> [d |-> 3, L |-> <<1000000, 866025, 1632993>>, t |-> <<-577350, 0, 0>>, D |-> 12, basis |-> <<<<4,8,3>>, <<8,4,9>>>>]
    [] n = "square" -> Plane(1000000, 1000000, 0, <<<<0,0,0>>>>, 2)
    [] n = "hex" -> Plane(1000000, 1732051, 0, <<<<0,0,0>>, <<1,1,0>>>>, 2)
    [] n = "graphene" -> Plane(1000000, 1732051, 0, <<<<0,0,0>>, <<0,2,0>>, <<3,5,0>>, <<3,3,0>>>>, 6)
    [] n = "rect" -> Plane(1000000, 2000000, 0, <<<<0,0,0>>>>, 2)
    [] n = "rect3c" -> Plane(1000000, 3000000, 0, <<<<0,0,0>>, <<1,1,0>>>>, 2)
    [] n = "oblique" -> Plane(1000000, 707107, 1000000, <<<<0,0,0>>>>, 2)
    [] n = "oblique60" -> Plane(1000000, 1732051, 577350, <<<<0,0,0>>>>, 2)
    [] OTHER -> [d |-> 0]
\* the cell as the object reports it
CellV(e) ==
  IF B.name = "" THEN {} ELSE
  LET c == Named(B.name) IN
    If(e.d = c.d, "dimensions")
    \cup If(\A i \in 1..c.d : Near(e.L[i], c.L[i], 3) /\ Near(e.t[i], c.t[i], 3), "cell box")
    \cup If(B.D = c.D /\ SeqSet(e.basis) = SeqSet(c.basis) /\ Len(e.basis) = Len(c.basis), "basis")
    \cup If(e.vec, "lattice vectors")
SysV(e) ==
  IF e.bad # "" THEN If(e.exc = "ValueError", "accepted: " \o e.bad)
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE LET N == e.n[1]*e.n[2]*e.n[3] IN
    If(e.boxok, "box is the scaled cell times the replicas")
    \cup (IF Len(e.f) # N * Len(B.basis) THEN {"number of points"} ELSE
       If(\A b \in 1..Len(B.basis) :
            { <<e.f[k][1] % (e.n[1]*B.D), e.f[k][2] % (e.n[2]*B.D), e.f[k][3] % (e.n[3]*B.D)>> : k \in (b-1)*N+1..b*N }
              = F!Replicas(B.basis[b], B.D, e.n), "one point at each basis position of each replica")
       \cup If(\A k \in 1..Len(e.f) : \A i \in 1..3 : e.f[k][i] \in 0..e.n[i]*B.D, "inside the box"))
NoiseV(e) ==
  If(e.same, "same seed, same system") \cup If(e.boxsame, "noise changed the box") \cup If(e.moved, "no noise")
  \cup If(e.other, "seed ignored") \cup If(e.bound, "displacements beyond the noise") \cup If(e.inside, "inside the box")
  \cup If(e.flat, "noise out of the plane")
RandV(e) == If(e.n = e.want, "number of points") \cup If(e.inside, "inside the box") \cup If(e.d = e.wantd, "dimensions")
  \cup If(e.L, "box size") \cup If(e.same, "same seed, same system") \cup If(e.other, "seed ignored") \cup If(e.state, "global random state")
Verdict(e) == CASE e.op = "buffer" -> BufferV(e)
                [] e.op = "cell" -> CellV(e)
                [] e.op = "system" -> SysV(e)
                [] e.op = "noise" -> NoiseV(e)
                [] e.op = "random" -> RandV(e)
                [] OTHER -> {"unknown event"}
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
