------------------------------ MODULE FCluster ------------------------------
(* Clusters (C01), their properties (C02) and interfaces (I01).

   Clustering is a state machine over disjoint sets: bonds are united in any order by any
   worker; when all are consumed the sets are the connected components. *)
EXTENDS Lat, FFix, TLC

\* merge the classes of i and j in the labelling c (a function onto class names)
Unite(c, i, j) == IF c[i] = c[j] THEN c
                  ELSE LET m == Min2(c[i], c[j])  x == Max2(c[i], c[j]) IN TLCEval([k \in DOMAIN c |-> IF c[k] = x THEN m ELSE c[k]])
Components(n, bonds) ==
  LET RECURSIVE F(_, _)
      F(k, c) == IF k > Len(bonds) THEN c ELSE F(k+1, Unite(c, bonds[k][1], bonds[k][2]))
  IN F(1, [i \in 1..n |-> i])
SizeOf(c, x) == Cardinality({ i \in DOMAIN c : c[i] = x })
\* idx (from 0) is a legal numbering of the classes of c
NumberingOK(c, idx, num) ==
  /\ \A i \in DOMAIN c : idx[i] \in 0..num-1
  /\ \A i \in DOMAIN c : idx[i] = idx[c[i]]             \* class names are members of their class
  /\ LET reps == { i \in DOMAIN c : c[i] = i } IN
       /\ Cardinality({ idx[i] : i \in reps }) = Cardinality(reps) /\ Cardinality(reps) = num
       /\ LET size == [k \in 0..num-1 |-> Cardinality({ i \in DOMAIN c : idx[i] = k })]
              first == [k \in 0..num-1 |-> CHOOSE i \in reps : idx[i] = k]      \* its smallest member
          IN \A k \in 0..num-2 : size[k] > size[k+1] \/ (size[k] = size[k+1] /\ first[k] < first[k+1])
------------------------------------------------------------------------------
CONSTANTS Nodes, MaxBonds
VARIABLES bonds, todo, cls
vars == <<bonds, todo, cls>>
MCInit == bonds = {} /\ todo = {} /\ cls = [i \in Nodes |-> i]
AddBond == Cardinality(bonds) < MaxBonds /\ todo = bonds
           /\ \E b \in (Nodes \X Nodes) \ bonds : bonds' = bonds \cup {b} /\ todo' = bonds' /\ cls' = [i \in Nodes |-> i]
\* workers pick any outstanding bond
Work == \E b \in todo : todo' = todo \ {b} /\ cls' = Unite(cls, b[1], b[2]) /\ UNCHANGED bonds
MCNext == AddBond \/ Work
MCSpec == MCInit /\ [][MCNext]_vars
Reach(R) == LET RECURSIVE G(_)
                G(Q) == LET Q2 == Q \cup { <<a[1], b[2]>> : <<a, b>> \in { ab \in Q \X Q : ab[1][2] = ab[2][1] } } IN IF Q2 = Q THEN Q ELSE G(Q2)
            IN G(R)
SameClass == Reach({ <<i, i>> : i \in Nodes } \cup bonds \cup { <<b[2], b[1]>> : b \in bonds })
MCInv == todo = {} /\ bonds # {} => \A i, j \in Nodes : (cls[i] = cls[j]) <=> <<i, j>> \in SameClass
------------------------------------------------------------------------------
(* Centre of mass: along each lattice direction the circular mean c of the members'
   fractional coordinates, which makes the sine moment vanish and the cosine moment
   positive.  f, c are fractions of a turn; w the masses. *)
RECURSIVE Moment(_, _, _, _, _)
Moment(f, w, c, k, cosine) == IF k = 0 THEN 0
   ELSE Moment(f, w, c, k-1, cosine) + w[k] * (IF cosine THEN CosT(f[k] - c) ELSE SinT(f[k] - c))
Total(w) == SumSeq(w)
CentreOK(f, w, c, tol) == LET s == Moment(f, w, c, Len(f), FALSE)  k == Moment(f, w, c, Len(f), TRUE)  W == Total(w) IN
   /\ Abs(s) <= W * tol
   /\ (Abs(k) > W * tol => k > 0)
=============================================================================
