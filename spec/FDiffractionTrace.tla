-------------------------- MODULE FDiffractionTrace --------------------------
EXTENDS TraceBase, FDiffractionOps
VARIABLES ep, line, broken, acc
vars == <<ep, line, broken, acc>>
B == T[ep]
\* ---- Debye: k_i is 2 pi (a(n-1) + (b-a)(i-1)) / (16 (n-1)) per unit ----
KNum(i) == B.a*(B.n - 1) + (B.b - B.a)*(i - 1)
Phase(i, d2) == RDiv(KNum(i) * ISqrt(d2 * 1048576) * 4, B.n - 1)      \* k d in turns
Term(e, i, d2) == IF d2 = 0 \/ KNum(i) = 0 THEN ONE ELSE IF e.box.d = 2 THEN J0(Phase(i, d2), 16) ELSE Sinc(Phase(i, d2))
\* the frame's S(k) times the number it is divided by
Dists(e) == [k \in 1..Len(e.P)*Len(e.Q) |-> LET i == (k-1) \div Len(e.Q) IN Sq(Wrap(e.box, Sub(e.P[i+1], e.Q[k - i*Len(e.Q)])))]
DebyeFrame(e) ==
  LET D == TLCEval(Dists(e))
      tab == TLCEval([i \in 1..B.n |-> TLCEval([d2 \in SeqSet(D) |-> Term(e, i, d2)])])
  IN [s |-> TLCEval([i \in 1..B.n |-> RDiv(SumSeq([k \in 1..Len(D) |-> tab[i][D[k]]]), e.N)]),
      tol |-> 40 + (24*Len(D)) \div e.N, nf |-> 1, minL |-> Min2(e.box.L[1], Min2(e.box.L[2], IF e.box.d = 2 THEN e.box.L[1] ELSE e.box.L[3]))]
DPlus(x, y) == [s |-> TLCEval([i \in 1..B.n |-> x.s[i] + y.s[i]]), tol |-> x.tol + y.tol, nf |-> x.nf + y.nf,
                minL |-> IF x.minL = y.minL THEN x.minL ELSE 0]
DebyeAfter(e) == IF e.exc # "" THEN acc ELSE IF e.reset \/ acc = <<>> THEN <<DebyeFrame(e)>> ELSE <<DPlus(acc[1], DebyeFrame(e))>>
DebyeV(e) ==
  If(Len(e.k) = B.n /\ \A i \in 1..Len(e.k) : Abs(e.k[i]*(B.n - 1) - 4096*KNum(i)) <= 16*(B.n - 1), "k_values")
  \cup IF e.exc # "" THEN If(e.bad, "unexpected exception " \o e.exc)
  ELSE IF e.bad THEN {"invalid arguments accepted"}
  ELSE LET a == DebyeAfter(e)[1] IN
    IF Len(e.S) # B.n THEN {"shape of S_k"} ELSE
    If(\A i \in 1..B.n : Abs(e.S[i]*a.nf - a.s[i]) <= a.tol, "S_k")
    \cup If(a.minL > 0 => RNear(RMul(e.kmin, RInt(a.minL)), RMul(RInt(4), RPi), 10), "min_valid_k")
\* ---- DiffractionPattern ----
QAct(q, v) ==      \* rotation by one of the 24 axis aligned orientations, as a signed permutation
  [k \in 1..3 |-> q[k][1]*v[1] + q[k][2]*v[2] + q[k][3]*v[3]]
Bin(e, p) == LET v == QAct(e.view, p) IN [k \in 1..2 |-> ((v[k] + e.L) * e.G) \div (2*e.L)]    \* p in half units
DiffFrame(e) ==
  LET n == Len(e.P)
      U == TLCEval(Unit(B.G))
      pts == TLCEval([i \in 1..n |-> Bin([view |-> e.view, L |-> e.L, G |-> B.G], e.P[i])])
      sw == SumSeq(e.w)
      h == B.G \div 2
      fs(i) == IF 2*i < B.G THEN i ELSE i - B.G
      c == (41396123 \div (B.G*B.G*e.zn*e.zn)) * e.zd*e.zd*e.pw*e.pw
      P(x, y) == LET fx == fs(x)  fy == fs(y) IN
                 RMul(RMul(Power(B.G, U, pts, e.w, <<fx, fy>>), RDivide(RQuot(n, sw), RInt(sw))), RExpNeg(c*(fx*fx + fy*fy)))
      tab == TLCEval([x \in 0..B.G-1 |-> TLCEval([y \in 0..B.G-1 |-> RToFix(P(x, y), 12)])])
      \* output pixel a is frequency (a - O div 2) zd/zn, bilinear, zero outside
      hi == B.G - 1 - h          \* frequencies present whichever way the axes point
      at(x, y) == tab[x % B.G][y % B.G]
      pix(a, b) ==     \* a runs along y, b along x
        LET ya == (a - B.O \div 2) * e.zd  xb == (b - B.O \div 2) * e.zd
            y0 == ya \div e.zn  ry == ya % e.zn  x0 == xb \div e.zn  rx == xb % e.zn
            out(v) == Abs(v) > h*e.zn
            unsure(v) == Abs(v) > hi*e.zn
            col(x) == IF ry = 0 THEN at(x, y0)*e.zn ELSE at(x, y0)*(e.zn - ry) + at(x, y0 + 1)*ry
        IN IF out(ya) \/ out(xb) THEN 0 ELSE IF unsure(ya) \/ unsure(xb) THEN -1
           ELSE IF rx = 0 THEN RDiv(col(x0), e.zn) ELSE RDiv(col(x0)*(e.zn - rx) + col(x0 + 1)*rx, e.zn*e.zn)
      edge(a) == LET v == (a - B.O \div 2) * e.zd IN Abs(v) = hi*e.zn
  IN [s |-> TLCEval([a \in 0..B.O-1 |-> TLCEval([b \in 0..B.O-1 |-> pix(a, b)])]),
      edge |-> { a \in 0..B.O-1 : edge(a) }, tol |-> 12 + 6*n, nf |-> 1]
FPlus(x, y) == [s |-> TLCEval([a \in 0..B.O-1 |-> TLCEval([b \in 0..B.O-1 |-> IF x.s[a][b] < 0 \/ y.s[a][b] < 0 THEN -1 ELSE x.s[a][b] + y.s[a][b]])]), edge |-> x.edge \cup y.edge, tol |-> x.tol + y.tol, nf |-> x.nf + y.nf]
DiffAfter(e) == IF e.exc # "" THEN acc ELSE IF e.reset \/ acc = <<>> THEN <<DiffFrame(e)>> ELSE <<FPlus(acc[1], DiffFrame(e))>>
\* rows of the inverse of the view: columns of the view
Back(q, v) == [k \in 1..3 |-> q[1][k]*v[1] + q[2][k]*v[2] + q[3][k]*v[3]]
DiffV(e) ==
  IF e.exc # "" THEN If(e.bad, "unexpected exception " \o e.exc)
  ELSE IF e.bad THEN {"non-cubic box accepted"}
  ELSE LET a == DiffAfter(e)[1]
           K == 0..B.O-1
           kx(i) == (i - B.O \div 2)*1024
           near(v, t) == \A k \in 1..3 : Abs(v[k] - t[k]) <= 4
           straight == \A i, j \in K : near(e.kvec[i*B.O + j + 1], Back(e.view, <<kx(j), kx(i), 0>>))
           turned == \A i, j \in K : near(e.kvec[i*B.O + j + 1], Back(e.view, <<kx(i), kx(j), 0>>))
       IN If(e.shapes, "shapes of the results")
          \cup If(e.same, "to_image or a second read changed the result")
          \cup (IF ~e.shapes THEN {} ELSE
             If(\A i, j \in K : a.s[i][j] = -1 \/ Abs(e.D[i*B.O + j + 1]*a.nf - a.s[i][j]) <= a.tol \/ ((i \in a.edge \/ j \in a.edge) /\ e.D[i*B.O + j + 1]*a.nf <= a.s[i][j] + a.tol), "diffraction")
             \cup If(\A i \in K : Abs(e.kv[i+1] - kx(i)) <= 4, "k_values")
             \cup (IF "strict" \in DOMAIN B THEN If(straight, "k_vectors[i,j] is not the wavevector of diffraction[i,j]") ELSE If(straight \/ turned, "k_vectors")))
Verdict(e) == IF B.kind = "debye" THEN DebyeV(e) ELSE DiffV(e)
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {} /\ acc = <<>>
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ acc' = IF B.ev[line+1].bad THEN acc ELSE TLCEval(IF B.kind = "debye" THEN DebyeAfter(B.ev[line + 1]) ELSE DiffAfter(B.ev[line + 1]))
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
