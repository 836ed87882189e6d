---------------------------- MODULE FDensityTrace ----------------------------
EXTENDS TraceBase, FDensityOps
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
\* ---- LocalDensity: distances in quarter units ----
Pairs(n, m) == [k \in 1..n*m |-> LET i == (k-1) \div m IN <<i + 1, k - i*m>>]
DistsOf(e, i) ==     \* squared distances of the bonds of query point i
  IF e.explicit THEN LET s == SelectSeq(e.bonds, LAMBDA b : b[1] = i - 1) IN [k \in 1..Len(s) |-> Sq(s[k][2])]
  ELSE LET d(j) == Sq(Wrap(e.box, Sub(e.P[j], e.Q[i])))
           js == SelectSeq([j \in 1..Len(e.P) |-> j], LAMBDA j : ~(e.excl /\ i = j) /\ (e.R16 = 0 \/ 16*d(j) < e.R16))
       IN [k \in 1..Len(js) |-> d(js[k])]
\* in units of 1/ONE; d is good to 1/1024
Contr(e, d2) ==
  LET d == ISqrt(d2 * 1048576)
      num == (2*e.R4 + e.S4)*128 - d
  IN IF 64*d2 > (2*e.R4 + e.S4)*(2*e.R4 + e.S4) \/ (e.S4 = 0 /\ 64*d2 = 4*e.R4*e.R4) THEN 0
     ELSE IF e.S4 = 0 \/ (2*e.R4 >= e.S4 /\ 64*d2 <= (2*e.R4 - e.S4)*(2*e.R4 - e.S4)) THEN ONE
     ELSE Max2(0, Min2(ONE, (num*64) \div e.S4))
LocalV(e) ==
  LET n == Len(e.Q) IN
  IF Len(e.num) # n \/ Len(e.dens) # n THEN {"one value per query point"} ELSE
  LET D == TLCEval([i \in 1..n |-> TLCEval(DistsOf(e, i))])
      r == RMul(RQuot(e.R4, 4), e.u)
      vol == IF e.box.d = 2 THEN RMul(RPi, RMul(r, r)) ELSE RMul(RMul(RQuot(4, 3), RPi), RMul(r, RMul(r, r)))
  IN If(\A i \in 1..n : Abs(e.num[i] - SumSeq([k \in 1..Len(D[i]) |-> Contr(e, D[i][k])])) <= 4 + Len(D[i]) * (IF e.S4 = 0 THEN 0 ELSE 128 \div e.S4 + 2), "num_neighbors")
     \cup If(\A i \in 1..n : RClose(RMul(e.dens[i], vol), RFix(e.num[i], 14), 7) \/ RNear(RMul(e.dens[i], vol), RFix(e.num[i], 14), 8), "density")
\* ---- grids: four times the squared distance from point j to the centre of cell c ----
Cells(w) == [k \in 1..w[1]*w[2]*w[3] |-> <<(k-1) \div (w[2]*w[3]), ((k-1) \div w[3]) % w[2], (k-1) % w[3]>>]
Off(e, p, i, k) == IF k = 3 /\ e.box.d = 2 THEN 0
                   ELSE LET L == 2*e.box.L[k]  a == (2*p[k] + e.box.L[k] - (2*i + 1)*(e.box.L[k] \div e.w[k])) IN
                        IF e.box.per[k] THEN Min2(a % L, L - (a % L)) ELSE Abs(a)      \* no images across a face that is not periodic
Near4(e, p, c) == LET x == Off(e, p, c[1], 1)  y == Off(e, p, c[2], 2)  z == Off(e, p, c[3], 3) IN x*x + y*y + z*z
Want(e) == IF e.box.d = 2 THEN SelectSeq(e.w, LAMBDA x : x # 1) ELSE e.w
VoxelV(e) ==
  If(e.shape = Want(e), "shape of voxels") \cup
  LET C == TLCEval(Cells(e.w))  RR == e.R4*e.R4 IN
  IF Len(e.res) # Len(C) THEN {"number of voxels"} ELSE
  If(\A k \in 1..Len(C) :
       LET ds == { 4 * Near4(e, e.P[j], C[k]) : j \in 1..Len(e.P) } IN
         CASE \E d \in ds : d < RR -> e.res[k] = 1
           [] ~e.box.ex /\ RR \in ds -> e.res[k] \in {0, 1}
           [] OTHER -> e.res[k] = 0, "voxels")
GaussV(e) ==
  If(e.shape = Want(e), "shape of density") \cup
  LET C == TLCEval(Cells(e.w))
      RR == e.R4*e.R4
      sig == RMul(RQuot(e.S4, 4), e.u)
      norm == RPow(RDivide(RInt(1), RMul(<<20534, -13>>, sig)), e.box.d)
      K == TLCEval([D \in 0..(RR \div 4) |-> RMul(norm, RExpNeg((2*D*1048576) \div (e.S4*e.S4)))])
      ok(k) == LET near == TLCEval([j \in 1..Len(e.P) |-> Near4(e, e.P[j], C[k])])
                   sure == SelectSeq([j \in 1..Len(e.P) |-> j], LAMBDA j : 4*near[j] < RR)
                   edge == SelectSeq([j \in 1..Len(e.P) |-> j], LAMBDA j : 4*near[j] = RR /\ ~e.box.ex)
                   term(j) == RMul(RInt(e.val[j]), K[near[j]])
                   size == RAdd(RSum(LAMBDA i : RAbs(term(sure[i])), Len(sure)), RMul(RInt(400), RSum(LAMBDA i : RAbs(term(edge[i])), Len(edge))))
               IN IF Len(sure) + Len(edge) = 0 THEN e.res[k] = RZero
                  ELSE RLe(RAbs(RSub(e.res[k], RSum(LAMBDA i : term(sure[i]), Len(sure)))), RAdd(<<size[1], size[2] - 8>>, RNorm(Len(e.P), -115)))   \* below that float32 has no precision left
  IN IF Len(e.res) # Len(C) THEN {"number of voxels"} ELSE If(\A k \in 1..Len(C) : ok(k), "density values")
Verdict(e) ==
  IF e.exc # "" THEN {"unexpected exception " \o e.exc}
  ELSE CASE e.kind = "local" -> LocalV(e) [] e.kind = "voxel" -> VoxelV(e) [] OTHER -> GaussV(e)
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev)
        /\ line' = line + 1
        /\ broken' = Verdict(T[ep].ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
