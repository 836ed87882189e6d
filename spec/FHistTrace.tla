----------------------------- MODULE FHistTrace -----------------------------
EXTENDS TraceBase, FHistOps
VARIABLES ep, line, broken, acc
vars == <<ep, line, broken, acc>>
B == T[ep]
\* ---- bonds of a call: <<query point, point, vector>>, indices from 1 ----
Pairs(n, m) == [k \in 1..n*m |-> LET i == (k-1) \div m IN <<i + 1, k - i*m>>]
Within(e, b) == 16 * Sq(Wrap(e.box, Sub(e.P[b[2]], e.Q[b[1]]))) < e.R16
Bonds(e) ==
  IF e.R16 > 0 THEN LET s == SelectSeq(Pairs(Len(e.Q), Len(e.P)), LAMBDA b : ~(e.excl /\ b[1] = b[2]) /\ Within(e, b))
                    IN [k \in 1..Len(s) |-> <<s[k][1], s[k][2], Wrap(e.box, Sub(e.P[s[k][2]], e.Q[s[k][1]]))>>]
  ELSE [k \in 1..Len(e.bonds) |-> <<e.bonds[k][1] + 1, e.bonds[k][2] + 1, e.bonds[k][3]>>]
\* ---- admissible bins of a bond, as indices into the flattened histogram ----
Flat2(A, C, n2) == { IF a = Out \/ c = Out THEN Out ELSE a*n2 + c : a \in A, c \in C }
Pt(v) == <<v[1], v[2]>>
AdmXY(e, b) ==
  LET g == Inv2(e.qo[b[1]])  w == Rot2(g, b[3])  one == e.ex /\ g[2] = 0 /\ g[1] > 0 IN
  Flat2(LinAdm(w[1], g[3], B.ax[1], one), LinAdm(w[2], g[3], B.ax[2], one), B.ax[2].n)
AdmXYZ(e, b, k) ==
  LET q == QConj(e.qo[b[1]])  f == e.eq[k]
      w == QRot(f, QRot(q, b[3]))  h == QNorm(q) * QNorm(f)  one == e.ex /\ h = 1 /\ Abs(q[1]) = 1 /\ Abs(f[1]) = 1
  IN Flat2(Flat2(LinAdm(w[1], h, B.ax[1], one), LinAdm(w[2], h, B.ax[2], one), B.ax[2].n), LinAdm(w[3], h, B.ax[3], one), B.ax[3].n)
\* the direction at angle (turn of g) minus (angle of u)
Minus(g, u) == Rot2(g, <<u[1], -u[2]>>)
AdmR12(e, b) ==
  LET d == Pt(b[3])
      t1 == AngAdm(Minus(e.po[b[2]], d), B.ax[2].n)
      t2 == AngAdm(Minus(e.qo[b[1]], <<-d[1], -d[2]>>), B.ax[3].n)
  IN Flat2(Flat2(DistAdm(Sq(b[3]), B.ax[1], e.ex), t1, B.ax[2].n), t2, B.ax[3].n)
AdmXYT(e, b) ==
  LET d == Pt(b[3])  t == AngAdm(Minus(e.po[b[2]], <<-d[1], -d[2]>>), B.ax[3].n)
  IN Flat2(AdmXY(e, b), t, B.ax[3].n)
AdmBO(e, b) ==
  LET p == QConj(e.po[b[2]])  q == e.qo[b[1]]
      v == CASE e.mode = "bod" -> b[3]
             [] e.mode = "lbod" -> QRot(p, b[3])
             [] e.mode = "obcd" -> QRot(q, QRot(p, b[3]))
             [] OTHER -> QRot(p, QRot(q, <<0, 0, 1>>))
  IN Flat2(IF 64*(Abs(v[1]) + Abs(v[2])) <= Abs(v[3]) THEN 0..B.ax[1].n-1 ELSE AngAdm(Pt(v), B.ax[1].n), PolAdm(v, B.ax[2].n), B.ax[2].n)
Adms(e, bs) ==
  CASE e.kind \in {"rdf", "cf"} -> [k \in 1..Len(bs) |-> DistAdm(Sq(bs[k][3]), B.ax[1], e.ex)]
    [] e.kind = "xy" -> [k \in 1..Len(bs) |-> AdmXY(e, bs[k])]
    [] e.kind = "xyt" -> [k \in 1..Len(bs) |-> AdmXYT(e, bs[k])]
    [] e.kind = "r12" -> [k \in 1..Len(bs) |-> AdmR12(e, bs[k])]
    [] e.kind = "bo" -> [k \in 1..Len(bs) |-> AdmBO(e, bs[k])]
    [] e.kind = "xyz" -> LET m == Len(e.eq) IN [k \in 1..Len(bs)*m |-> LET i == (k-1) \div m IN AdmXYZ(e, bs[i+1], k - i*m)]
\* ---- one frame: how many bonds must and may be in each bin ----
NBins == LET RECURSIVE P(_) P(i) == IF i = 0 THEN 1 ELSE B.ax[i].n * P(i-1) IN P(Len(B.ax))
Prod(x, y) == <<x[1]*y[1] + x[2]*y[2], x[1]*y[2] - x[2]*y[1]>>      \* conj(x) * y
RECURSIVE SumP(_, _, _)
SumP(e, bs, k) == IF k = 0 THEN <<0, 0>> ELSE LET p == Prod(e.val[bs[k][2]], e.qval[bs[k][1]])  s == SumP(e, bs, k-1) IN <<s[1]+p[1], s[2]+p[2]>>
Frame(e) ==
  LET bs == TLCEval(Bonds(e))
      A == TLCEval(Adms(e, bs))
      K == 1..Len(A)
  IN [must |-> [i \in 1..NBins |-> Cardinality({ k \in K : A[k] = {i-1} })],
      may |-> [i \in 1..NBins |-> Cardinality({ k \in K : (i-1) \in A[k] })],
      tmust |-> Cardinality({ k \in K : Out \notin A[k] }),
      tmay |-> Cardinality({ k \in K : A[k] # {Out} }),
      sure |-> (\A k \in K : Cardinality(A[k]) = 1),
      sums |-> IF e.kind = "cf" /\ (\A k \in K : Cardinality(A[k]) = 1)
               THEN [i \in 1..NBins |-> LET s == SelectSeq([k \in K |-> k], LAMBDA k : A[k] = {i-1}) IN SumP(e, [j \in 1..Len(s) |-> bs[s[j]]], Len(s))] ELSE <<>>,
      nf |-> 1]
Plus(a, b) == [must |-> [i \in 1..NBins |-> a.must[i] + b.must[i]], may |-> [i \in 1..NBins |-> a.may[i] + b.may[i]],
               tmust |-> a.tmust + b.tmust, tmay |-> a.tmay + b.tmay, sure |-> a.sure /\ b.sure,
               sums |-> IF a.sure /\ b.sure /\ a.sums # <<>> THEN [i \in 1..NBins |-> <<a.sums[i][1] + b.sums[i][1], a.sums[i][2] + b.sums[i][2]>>] ELSE <<>>,
               nf |-> a.nf + b.nf]
After(e) == IF e.kind = "brim" THEN acc ELSE IF e.exc # "" \/ e.again THEN acc ELSE IF e.reset \/ line = 0 THEN Frame(e) ELSE Plus(acc, Frame(e))
\* ---- expected normalisations, as multiples of the count ----
RV(e) == RMul(RMul(RInt(e.box.L[1]), RInt(e.box.L[2])), RInt(IF e.box.d = 2 THEN 1 ELSE e.box.L[3]))
Edge(i) == B.ax[1].lo + i*B.ax[1].w
Shell(e, i) == IF e.box.d = 2 THEN RMul(RPi, RQuot(Edge(i)*Edge(i) - Edge(i-1)*Edge(i-1), 16))
               ELSE RMul(RMul(RPi, RQuot(4, 3)), RQuot(Edge(i)*Edge(i)*Edge(i) - Edge(i-1)*Edge(i-1)*Edge(i-1), 64))
RdfOf(e, i, c, a) ==
  LET np == RInt(Len(e.P))  nq == RInt(Len(e.Q))
      rho == RDivide(IF e.mode = "finite_size" THEN RInt(Len(e.Q) - 1) ELSE nq, RV(e))
  IN RDivide(RInt(c), RMul(RMul(RMul(np, rho), RInt(a.nf)), Shell(e, i)))
W(k) == RQuot(B.ax[k].w, 4)
Jac(e, i) ==
  CASE e.kind = "xy" -> RMul(W(1), W(2))
    [] e.kind = "xyz" -> RMul(RMul(W(1), W(2)), W(3))
    [] e.kind = "xyt" -> RDivide(RMul(W(1), W(2)), RInt(B.ax[3].n))
    [] OTHER -> LET r == (i-1) \div (B.ax[2].n * B.ax[3].n)
                IN RDivide(RMul(RMul(RQuot(2*B.ax[1].lo + (2*r + 1)*B.ax[1].w, 8), W(1)), RDivide(RMul(RInt(2), RPi), RInt(B.ax[2].n))), RInt(B.ax[3].n))
PcfOf(e, i, c, a) ==
  LET n == RMul(RInt(Len(e.Q)), RInt(Len(e.P))) IN
  RDivide(RMul(RInt(c), RV(e)), RMul(RMul(n, RInt(a.nf * (IF e.kind = "xyz" THEN Len(e.eq) ELSE 1))), Jac(e, i)))
Solid(i) == LET n == B.ax[2].n  j == (i-1) % n IN
  RMul(RDivide(RMul(RInt(2), RPi), RInt(B.ax[1].n)), RSub(RFix(Compass[2*n][j][1], 14), RFix(Compass[2*n][j+1][1], 14)))
SumTo(s, k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i-1) IN S(k)
Same(x, y) == IF y[1] = 0 THEN x[1] = 0 ELSE RNear(x, y, 9)
HistV(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE LET a == TLCEval(After(e)) IN
   IF Len(e.counts) # NBins THEN {"shape of bin_counts"} ELSE
   If(\A i \in 1..NBins : a.must[i] <= e.counts[i] /\ e.counts[i] <= a.may[i], "bin counts")
   \cup If(a.tmust <= SumSeq(e.counts) /\ SumSeq(e.counts) <= a.tmay, "total number of bonds counted")
   \cup If(e.edgesok, "edges, centres, bounds and nbins")
   \cup (CASE e.kind = "rdf" ->
             If(\A i \in 1..NBins : Same(e.res[i], RdfOf(e, i, e.counts[i], a)), "rdf values")
             \cup If(\A i \in 1..NBins : Same(e.nr[i], RQuot(SumTo(e.counts, i), Len(e.Q) * a.nf)), "n_r")
          [] e.kind = "cf" ->
             IF a.sums = <<>> THEN {} ELSE
             If(\A i \in 1..NBins : IF e.counts[i] = 0 THEN e.res[i] = <<0, 0>>
                   ELSE Abs(e.res[i][1]*e.counts[i] - 256*a.sums[i][1]) <= e.counts[i] /\ Abs(e.res[i][2]*e.counts[i] - 256*a.sums[i][2]) <= e.counts[i], "correlation values")
             \cup If(e.real => \A i \in 1..NBins : e.res[i][2] = 0, "real correlation")
          [] e.kind = "bo" -> If(\A i \in 1..NBins : IF e.counts[i] = 0 THEN e.res[i][1] = 0 ELSE RNear(e.res[i], RDivide(RQuot(e.counts[i], a.nf), Solid(i)), 6), "bond order values")
          [] OTHER -> If(\A i \in 1..NBins : Same(e.res[i], PcfOf(e, i, e.counts[i], a)), "pair correlation and pmft"))
\* ---- H02: histories.  B.one[f] is what a fresh object reports for frame f alone; B.how[name] how
\* the results of several frames combine ----
Fold(F(_), rs) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE F(rs[i]) + S(i-1) IN S(Len(rs))
Largest(F(_), rs) == LET RECURSIVE S(_) S(i) == IF i = 1 THEN F(rs[1]) ELSE Max2(F(rs[i]), S(i-1)) IN S(Len(rs))
AfterH(e) == IF e.op = "c" THEN (IF e.reset THEN <<e.f>> ELSE Append(acc, e.f)) ELSE acc
FoldV(e) ==
  IF e.op = "x" THEN {}               \* a refused call: the history is unchanged
  ELSE IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE IF e.op # "r" THEN {}
  ELSE IF Len(e.val) # Len(B.one[1][e.name]) THEN {"shape of " \o e.name}
  ELSE LET n == Len(acc)
           one(f, k) == B.one[f][e.name][k]
           weight(f, k) == B.one[f].bin_counts[(k-1) \div 2 + 1]
           tol == B.tol[e.name]
           ok(k) == CASE B.how[e.name] = "sum" -> Abs(e.val[k] - Fold(LAMBDA f : one(f, k), acc)) <= tol
                      [] B.how[e.name] = "mean" -> Abs(e.val[k]*n - Fold(LAMBDA f : one(f, k), acc)) <= tol*n
                      [] B.how[e.name] = "max" -> Abs(e.val[k] - Largest(LAMBDA f : one(f, k), acc)) <= tol
                      [] OTHER -> LET w == Fold(LAMBDA f : weight(f, k), acc) IN
                                  Abs(e.val[k]*w - Fold(LAMBDA f : one(f, k)*weight(f, k), acc)) <= tol*(w + 1)
       IN If(\A k \in 1..Len(e.val) : ok(k), e.name)
\* e.n bonds with the largest value below the upper bound of an axis (H05: directions that are a pole up
\* to rounding): they are in the last bin (H05: that of the pole)
BrimV(e) == IF e.exc # "" THEN {"unexpected exception " \o e.exc}
            ELSE If(e.total = e.n, "total number of bonds counted") \cup If(e.last = e.n, "bin counts")
Verdict(e) == IF ~B.fold /\ e.kind = "brim" THEN BrimV(e) ELSE IF B.fold THEN FoldV(e) ELSE HistV(e)
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {} /\ acc = <<>>
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ acc' = IF B.fold THEN AfterH(B.ev[line + 1]) ELSE After(B.ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
