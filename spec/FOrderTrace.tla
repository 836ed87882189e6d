---------------------------- MODULE FOrderTrace ----------------------------
EXTENDS TraceBase, FOrderOps
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
B == T[ep]
Pairs(n, m) == [j \in 1..n*m |-> LET i == (j-1) \div m IN <<i + 1, j - i*m>>]
Within(e, b) == 16 * Sq(Wrap(e.box, Sub(e.P[b[2]], e.Q[b[1]]))) < e.R16
\* <<query point, point, vector, weight>>, indices from 1
Bonds(e) ==
  IF e.R16 > 0 THEN LET s == SelectSeq(Pairs(Len(e.Q), Len(e.P)), LAMBDA b : ~(e.excl /\ b[1] = b[2]) /\ Within(e, b))
                    IN [j \in 1..Len(s) |-> <<s[j][1], s[j][2], Wrap(e.box, Sub(e.P[s[j][2]], e.Q[s[j][1]])), 1>>]
  ELSE [j \in 1..Len(e.bonds) |-> <<e.bonds[j][1] + 1, e.bonds[j][2] + 1, e.bonds[j][3], e.bonds[j][4]>>]
\* ---- O01 ----
PsiV(e, bs, i) ==
  LET mine == SelectSeq(bs, LAMBDA b : b[1] = i)
      w(b) == IF e.weighted THEN b[4] ELSE 1
      S == CSum([j \in 1..Len(mine) |-> LET p == Phase(mine[j][3], e.k) IN <<w(mine[j])*p[1], w(mine[j])*p[2]>>])
      W == SumSeq([j \in 1..Len(mine) |-> w(mine[j])])
      v == e.psi[i]
      near(a, b) == a # NONINT /\ Abs(a*W - b) <= (6*e.k + 12)*W
  IN IF mine = <<>> THEN v[1] = NONINT /\ v[2] = NONINT ELSE near(v[1], S[1]) /\ near(v[2], S[2])
HexV(e) == IF e.exc # "" THEN If(e.bad, "unexpected exception " \o e.exc)
           ELSE IF e.bad THEN {"three dimensional box accepted"}
           ELSE IF Len(e.psi) # Len(e.P) THEN {"shape of particle_order"}
           ELSE LET bs == TLCEval(Bonds(e)) IN If(\A i \in 1..Len(e.P) : PsiV(e, bs, i), "particle_order")
\* ---- O03 ----
Rel2(e, i) == LET s == QRe(e.a[i], e.b[i]) IN RDiv(s*s*ONE, QNorm(e.a[i])*QNorm(e.b[i]))
RotV(e) == IF e.exc # "" THEN If(e.bad, "unexpected exception " \o e.exc)
           ELSE IF e.bad THEN {"invalid arguments accepted"}
           ELSE IF Len(e.ra) # Len(e.a) THEN {"shape of particle_order"}
           ELSE LET n == Len(e.a)  tol == 24 + e.l
                    ch == TLCEval([i \in 1..n |-> Character(e.l, Rel2(e, i))]) IN
             If(\A i \in 1..n : Abs(e.ra[i][1] - ch[i]) <= tol, "particle_order")
             \cup If(\A i \in 1..n : Abs(e.ra[i][2]) <= tol, "imaginary part of particle_order")
             \cup If(Abs(e.order*n - SumSeq(ch)) <= tol*n, "order")
\* ---- O02 ----
CubV(e) == IF e.exc # "" THEN If(e.bad, "unexpected exception " \o e.exc)
           ELSE IF e.bad THEN {"invalid arguments accepted"}
           ELSE LET n == Len(e.q)
                    qs == TLCEval([i \in 1..n |-> Quart(e.q[i])])
                    G == TMinus(TMean(qs), R4)
                    near(s, t, tol) == \A j \in 1..81 : Abs(s[j] - t[j]) <= tol
                    C == TMinus(FQuart(e.orient), R4)
                    r == e.runs
             IN If(\A i \in 1..Len(r) : r[i].digest = r[1].digest, "results differ between runs or thread counts")
                \cup If(\A i \in 1..Len(e.more)-1 : e.more[i+1] >= e.more[i], "more replicates lower the order")
                \cup If(near(e.G, G, 6), "global_tensor")
                \cup If(Abs(FMul(e.orient[1], e.orient[1]) + FMul(e.orient[2], e.orient[2]) + FMul(e.orient[3], e.orient[3]) + FMul(e.orient[4], e.orient[4]) - ONE) <= 12, "orientation is not a unit quaternion")
                \cup If(near(e.C, C, 64), "cubatic_tensor is not that of orientation")
                \cup If(Abs(e.order - OrderOf(e.C, G)) <= 80, "order")
                \cup If(e.order <= ONE + 2, "order above 1")
                \cup If(Len(e.po) = n, "shape of particle_order")
                \cup (IF Len(e.po) # n THEN {} ELSE
                      If(\A i \in 1..n : Abs(e.po[i] - OrderOf(TMinus(qs[i], R4), G)) <= 40 /\ e.po[i] <= ONE + 2, "particle_order"))
DivV(e) == If(\A i \in 1..Len(e.cases) : \A j \in 1..Len(e.cases[i]) : e.cases[i][j] = e.cases[i][1], "results depend on how replicates are divided")
           \cup If(\A i \in 1..Len(e.more)-1 : e.more[i+1] >= e.more[i], "more replicates lower the order")
\* ---- E01 ----
\* t is half the angle in units of 1/TURN of a turn
AngleOK(t, c) == IF c = ONE THEN 0 <= t /\ t <= 24 ELSE IF c = -ONE THEN Abs(2*t - TURN) <= 48 ELSE t # NONINT /\ Abs(CosT(t) - c) <= 6
\* closed under sign: never more than half a turn
BothSigns(g) == \A i \in 1..Len(g) : \E j \in 1..Len(g) : g[j] = [x \in 1..4 |-> -g[i][x]]
SepV(e) == IF e.exc # "" THEN If(e.bad, "unexpected exception " \o e.exc)
           ELSE IF e.bad THEN {"mismatched orientations accepted"}
           ELSE IF e.glob THEN
                  LET m == Len(e.g) IN
                  IF e.shape # <<Len(e.o), m>> THEN {"shape of angles"} ELSE
                  If(\A j \in 1..Len(e.o)*m : LET i == (j-1) \div m IN AngleOK(e.ang[j], SepCos(e.o[i+1], e.g[j - i*m], e.eq)), "angles")
           ELSE LET bs == Bonds(e)  rows == [j \in 1..Len(e.rows) |-> <<e.rows[j][1] + 1, e.rows[j][2] + 1>>] IN
                IF Len(e.ang) # Len(e.rows) THEN {"shape of angles"} ELSE
                If(Len(bs) = Len(rows) /\ (IF e.R16 = 0 THEN \A j \in 1..Len(bs) : rows[j] = <<bs[j][1], bs[j][2]>>
                                           ELSE SeqSet(rows) = {<<bs[j][1], bs[j][2]>> : j \in 1..Len(bs)}), "bonds")
                \cup If(\A j \in 1..Len(rows) : rows[j][1] \in 1..Len(e.Q) /\ rows[j][2] \in 1..Len(e.P)
                          /\ AngleOK(e.ang[j], SepCos(e.o[rows[j][2]], e.qo[rows[j][1]], e.eq)), "angles")
                \cup If(BothSigns(e.eq) => \A j \in 1..Len(e.ang) : 4*e.ang[j] <= TURN + 64, "angle above pi")
\* ---- E02: projections in units of 1/256, normed in 1/16384 ----
ProjNum(e, j, v, p) == MaxOf({ LET q == QMul(e.o[j], e.eq[x]) IN RDiv(256 * Dot(QRot(q, p), v), QNorm(q)) : x \in 1..Len(e.eq) })
ProjV(e) == IF e.exc # "" THEN If(e.bad, "unexpected exception " \o e.exc)
            ELSE IF e.bad THEN {"mismatched orientations accepted"}
            ELSE LET bs == Bonds(e)  m == Len(e.p)  nb == Len(bs)
                     b(r) == IF e.R16 = 0 THEN bs[r] ELSE bs[CHOOSE j \in 1..nb : bs[j][1] = e.rows[r][1] + 1 /\ bs[j][2] = e.rows[r][2] + 1] IN
              IF e.shape # <<Len(e.rows), m>> \/ e.nshape # e.shape THEN {"shape of projections"}
              ELSE IF ~(nb = Len(e.rows) /\ (IF e.R16 = 0 THEN \A j \in 1..nb : e.rows[j] = <<bs[j][1] - 1, bs[j][2] - 1>>
                            ELSE SeqSet(e.rows) = {<<bs[j][1] - 1, bs[j][2] - 1>> : j \in 1..nb})) THEN {"bonds"}
              ELSE If(\A r \in 1..nb, c \in 1..m : LET x == b(r) IN e.pr[(r-1)*m + c] # NONINT /\ Abs(e.pr[(r-1)*m + c] - ProjNum(e, x[2], x[3], e.p[c])) <= 1, "projections")
                   \cup If(\A r \in 1..nb, c \in 1..m : LET x == b(r)  L == RToFix(RSqrt(RInt(Sq(x[3]))), 8) IN
                            e.no[(r-1)*m + c] # NONINT /\ Abs(RToFix(RMul(RFix(e.no[(r-1)*m + c], 14), RFix(L, 8)), 8) - ProjNum(e, x[2], x[3], e.p[c])) <= 2 + L \div 2048, "normed_projections")
\* the orders found with 1, 2, ... replicates, one row per seed: a longer run is never worse, and
\* for every replicate there is a seed with which it is the best so far
BestV(e) ==
  If(\A k \in 1..Len(e.rows) : \A i \in 1..Len(e.rows[k])-1 : e.rows[k][i+1] >= e.rows[k][i], "more replicates lower the order")
  \cup If(\A i \in 1..Len(e.rows[1])-1 : \E k \in 1..Len(e.rows) : e.rows[k][i+1] > e.rows[k][i], "a replicate never counts")

Verdict(e) == CASE e.kind = "hex" -> HexV(e) [] e.kind = "rot" -> RotV(e) [] e.kind = "cub" -> CubV(e) [] e.kind = "cubdiv" -> DivV(e) [] e.kind = "cubbest" -> BestV(e)
                [] e.kind = "sep" -> SepV(e) [] OTHER -> ProjV(e)
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
