------------------------------- MODULE FOrder -------------------------------
(* Order parameters and local environments of oriented particles (O01-O03, E01, E02).

   Design model: a reference and a current orientation, a bond list with weights, acted on by
   rotating the whole system, rotating one particle by an element of its symmetry group, and
   reordering bonds.  Separation, character and bond-angle average must transform as claimed. *)
EXTENDS FOrderOps
CONSTANTS Quats, Spins, Group, Bonds, Ks
VARIABLES ref, cur, bonds, k,
          turns, bent,          \* quarter turns of the bonds; a symmetry operation was applied
          sep0, chi0, psi0,     \* what the initial state measured
          steps
vars == <<ref, cur, bonds, k, turns, bent, sep0, chi0, psi0, steps>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
GroupSeq == TLCEval(SeqOf(Group))
BondSum(bs, kk) == CSum([i \in 1..Len(bs) |-> LET p == Phase(bs[i][1], kk) IN <<bs[i][2]*p[1], bs[i][2]*p[2]>>])
Chi(a, b, l) == Character(l, LET s == QRe(a, b) IN RDiv(s*s*ONE, QNorm(a)*QNorm(b)))
Init == /\ ref \in Quats /\ cur \in Quats /\ bonds \in Bonds /\ k \in Ks /\ turns = 0 /\ bent = FALSE /\ steps = 0
        /\ sep0 = TLCEval(SepCos(ref, cur, GroupSeq)) /\ chi0 = TLCEval([l \in {2, 4, 6} |-> Chi(ref, cur, l)])
        /\ psi0 = TLCEval(BondSum(bonds, k))
Keep == UNCHANGED <<k, sep0, chi0, psi0>>
Spin(g) == ref' = QMul(g, ref) /\ cur' = QMul(g, cur) /\ UNCHANGED <<bonds, turns, bent>>
Symmetry(g) == cur' = QMul(cur, g) /\ bent' = TRUE /\ UNCHANGED <<ref, bonds, turns>>
Quarter == bonds' = [i \in 1..Len(bonds) |-> <<<<-bonds[i][1][2], bonds[i][1][1], 0>>, bonds[i][2]>>] /\ turns' = turns + 1 /\ UNCHANGED <<ref, cur, bent>>
Reorder == bonds' = [i \in 1..Len(bonds) |-> bonds[Len(bonds)+1-i]] /\ UNCHANGED <<ref, cur, turns, bent>>
Next == /\ steps < 2 /\ steps' = steps + 1 /\ Keep
        /\ ((\E g \in Spins : Spin(g)) \/ (\E g \in Group : Symmetry(g)) \/ Quarter \/ Reorder)
Spec == Init /\ [][Next]_vars
\* the group holds q and -q: the half angle is at most a quarter turn
Inv == LET s == SepCos(ref, cur, GroupSeq)  b == BondSum(bonds, k)
           e == CMul(CPow(CPow(<<0, ONE>>, k), turns), psi0)
       IN /\ s >= 0 /\ Abs(s - sep0) <= 4 /\ Abs(s - SepCos(cur, ref, GroupSeq)) <= 2
          /\ (~bent => \A l \in {2, 4, 6} : Abs(Chi(ref, cur, l) - chi0[l]) <= 8 /\ Abs(chi0[l]) <= ONE + 16)
          /\ Abs(b[1] - e[1]) <= 64 /\ Abs(b[2] - e[2]) <= 64
ASSUME IsGroup(Group)
\* tensors: squared length 24/5, a turned cube against itself is perfect, the identity mean gives 1
ASSUME \A q \in Quats : LET C == TMinus(Quart(q), R4) IN Abs(TSq(C) - (24*ONE) \div 5) <= 64 /\ Abs(OrderOf(C, C) - ONE) <= 2
ASSUME \A q \in Quats : LET n == QNorm(q)  f == [j \in 1..4 |-> HalfCos(q[j], n)]  A == Quart(q)  B == FQuart(f) IN
          \A j \in 1..81 : Abs(A[j] - B[j]) <= 64
ASSUME \A l \in {0, 2, 4, 8, 20} : Character(l, ONE) = ONE
=============================================================================
