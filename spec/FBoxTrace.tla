------------------------------ MODULE FBoxTrace ------------------------------
(* Recorded Box calls against the operators of Lat / FBox (B01-B04, B06). *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>

B == T[ep]
Rows(e) == 1..Len(e.v)

WrapV(e) ==
  If(Len(e.w) = Len(e.v), "rows") \cup
  (IF Len(e.w) # Len(e.v) THEN {} ELSE
     If(\A i \in Rows(e) : e.w[i] \in WrapSet(B.box, e.v[i]), "wrapped value")
     \cup If(e.w2 = e.w \/ \A i \in Rows(e) : e.w2[i] \in WrapSet(B.box, e.w[i]), "idempotent")
     \cup If(B.box.ex => e.w2 = e.w, "idempotent"))
  \cup If(e.same, "input modified")

(* Points a + eps*s next to a face, eps smaller than anything (s: signs).  The cell of such a
   point is the lexicographic floor; float32 may not resolve eps and put it on the face itself,
   which is the next cell.  Either way the result must lie inside the half-open box. *)
FrLin(b, s) == LET f == Fr(b, s) z == Fr(b, Zero) IN [i \in 1..3 |-> f[i] - z[i]]
EdgeCells(b, v, s, i) ==
  LET f == Fr(b, v)[i]  m == FrDen(b)[i]  c == f \div m IN
    IF i = 3 /\ b.d = 2 THEN {0}
    ELSE IF f % m = 0 /\ FrLin(b, s) # Zero THEN {c - 1, c} ELSE {c}
EdgeV(e) ==
  LET R == 1..Len(e.v)
      C(i) == { <<x, y, z>> : x \in EdgeCells(B.box, e.v[i], e.s[i], 1), y \in EdgeCells(B.box, e.v[i], e.s[i], 2),
                              z \in EdgeCells(B.box, e.v[i], e.s[i], 3) } IN
  If(\A i \in R : \E n \in C(i) : e.w[i] = Sub(e.v[i], Lattice(B.box, PerOnly(B.box, n))), "wrapped value")
  \cup If(\A i \in R : e.inside[i], "outside the box after wrapping")
  \cup If(\A i \in R : e.n[i] \in C(i), "image value")
  \cup If(\A i \in R : e.zero[i] = (e.n[i] = Zero), "contains = zero image")
  \cup If(e.per => e.back = e.v, "unwrap(wrap, images) round trip")
ImagesV(e) ==
  If(Len(e.n) = Len(e.v) /\ Len(e.inside) = Len(e.v), "rows") \cup
  (IF ~(Len(e.n) = Len(e.v) /\ Len(e.inside) = Len(e.v)) THEN {} ELSE
     If(\A i \in Rows(e) : e.n[i] \in ImageSet(B.box, e.v[i]), "image value")
     \cup If(\A i \in Rows(e) : B.box.ex => (e.inside[i] = (e.n[i] = Zero)), "contains = zero image")
     \cup If(\A i \in Rows(e) : \/ e.inside[i] /\ Zero \in ImageSet(B.box, e.v[i])
                                \/ ~e.inside[i] /\ ImageSet(B.box, e.v[i]) # {Zero}, "contains")
     \cup If((\A i \in 1..3 : B.box.per[i]) =>
             \A i \in Rows(e) : B.box.ex => e.back[i] = e.v[i], "unwrap(wrap, images) round trip"))
  \cup If(e.same, "input modified")

\* unwrap of points strictly inside: value and image read back
UnwrapV(e) ==
  LET N == Max2(Len(e.v), Len(e.n))
      V(i) == IF Len(e.v) = 1 THEN e.v[1] ELSE e.v[i]
      M(i) == IF Len(e.n) = 1 THEN e.n[1] ELSE e.n[i]
      n2(i) == IF B.box.d = 2 THEN <<M(i)[1], M(i)[2], 0>> ELSE M(i)
      ok == Len(e.u) = N /\ Len(e.n2) = N
  IN If(ok, "rows") \cup
     (IF ~ok THEN {} ELSE
        If(\A i \in 1..N : e.u[i] = Add(V(i), Lattice(B.box, n2(i))), "unwrapped value")
        \cup If(\A i \in 1..N : (ImageSet(B.box, V(i)) = {Zero}) => e.n2[i] = n2(i), "image of unwrapped"))
     \cup If(e.same, "input modified")

\* fractional -> absolute: f given in units 1/den; result scaled by 2*den
AbsV(e) ==
  LET A(f) == LET g == <<2*f[1]-e.den, 2*f[2]-e.den, IF B.box.d = 2 THEN 0 ELSE 2*f[3]-e.den>>
              IN Lattice(B.box, g) IN
  If(Len(e.r) = Len(e.f) /\ \A i \in 1..Len(e.f) : e.r[i] = A(e.f[i]), "absolute value")
  \cup If(e.same, "input modified")
\* absolute -> fractional, result scaled by FrDen
FracV(e) ==
  If(Len(e.r) = Len(e.v) /\ \A i \in 1..Len(e.v) :
        LET f == Fr(B.box, e.v[i]) IN \A k \in 1..3 : Abs(e.r[i][k] - f[k]) <= e.tol, "fractional value")
  \cup If(e.same, "input modified")
  \cup If(e.back = e.v, "absolute(fractional) round trip")

D2Set(q, p) == { Sq(w) : w \in WrapSet(B.box, Sub(p, q)) }
DistV(e) ==
  LET n == Len(e.q) m == Len(e.p) IN
  If(e.paired = (IF n = m THEN "" ELSE "error"), "length check") \cup
  If(n = m => (Len(e.d) = n /\ \A i \in 1..n : e.d[i] \in D2Set(e.q[i], e.p[i])), "paired distance") \cup
  If(e.pairs \/ (Len(e.all) = n /\ (\A i \in 1..n : Len(e.all[i]) = m) /\
     (\A i \in 1..n : \A j \in 1..m : e.all[i][j] \in D2Set(e.q[i], e.p[j]))), "all distances") \cup
  If((\A i \in Dirs(B.box) : B.box.per[i]) /\ Len(e.all) = n =>
     \A i \in 1..n : \A j \in 1..Len(e.all[i]) :
        LET mm == MinImage2(B.box, Sub(e.p[j], e.q[i])) IN
          BelowHalfPlane(B.box, mm) /\ (B.box.ex \/ BelowHalfPlane(B.box, mm+1)) => e.all[i][j] = mm, "minimum image")
  \cup If(e.same, "input modified")

(* centre of mass: masses placed on a lattice where the circular mean is known exactly:
   per axis, the points sit on two fractional coordinates f0 +- h (h < 1/4) with equal total
   mass, or on one coordinate; the mean is then f0.  com is in units of FrDen/k. *)
ComV(e) ==
  If(e.com \in { <<w[1], w[2], w[3]>> : w \in WrapSet(B.box, e.mean) }, "centre of mass")
  \cup If(e.comT = e.com, "lattice translation changes centre")
  \cup If(e.comP = e.com, "reordering changes centre")
  \cup If(e.comM = e.com, "mass scale changes centre")
  \cup If(e.comS \in WrapSet(B.box, Add(e.mean, e.shift)), "translation moves centre")
  \cup If(Len(e.cen) = Len(e.v) /\ \A i \in 1..Len(e.v) :
            \E w \in WrapSet(B.box, Sub(e.v[i], e.com)) : e.cen[i] = w, "centered points")
  \cup If(e.same, "input modified")

Verdict(e) ==
  IF e.exc # "" THEN {"unexpected exception"} ELSE
  CASE e.a = "wrap" -> WrapV(e)
    [] e.a = "images" -> ImagesV(e)
    [] e.a = "edge" -> EdgeV(e)
    [] e.a = "unwrap" -> UnwrapV(e)
    [] e.a = "abs" -> AbsV(e)
    [] e.a = "frac" -> FracV(e)
    [] e.a = "dist" -> DistV(e)
    [] e.a = "com" -> ComV(e)
    [] OTHER -> {"unknown event"}

Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
