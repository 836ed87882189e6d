---------------------------- MODULE FAgreeTrace ------------------------------
(* Recorded pairs of analyses: d holds what each of them said, in fixed point where it is not a
   count.  What one of them says is put together here into what the other says.             *)
EXTENDS TraceBase, FFix, FReal
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
Ab(x) == IF x < 0 THEN -x ELSE x
Eq(x, y, t) == Ab(x - y) <= t
RECURSIVE UpTo(_, _)
UpTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + UpTo(s, n - 1)
AddUp(s) == UpTo(s, Len(s))
Each(s, t, tol) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Eq(s[i], t[i], tol)
Rows(s, t, tol) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Each(s[i], t[i], tol)
HowMany(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
Vals(s) == {s[i] : i \in DOMAIN s}
Rising(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]
Last(s) == s[Len(s)]

Counts(d) ==
  If(d.rdf = d.cf, "RDF and CorrelationFunction: numbers of bonds")
  \cup If(\A i \in DOMAIN d.cf : Eq(d.corr[i], IF d.cf[i] > 0 THEN 4096 ELSE 0, 2), "the correlation of ones")
  \cup If(Eq(AddUp(d.rdf), d.bonds, d.edge), "RDF and the neighbor list: number of bonds")
  \cup If(d.r12 = <<>> \/ [i \in DOMAIN d.r12 |-> AddUp(d.r12[i])] = d.rdf, "PMFTR12 and RDF: numbers of bonds")
  \cup If(Eq(Last(d.run) * d.nq * d.frames, d.bonds * 4096, d.nq * d.frames * 2 + 64 + d.edge * 4096), "n_r and the number of bonds")
  \cup If(\A i \in DOMAIN d.run : Eq(d.run[i] * d.nq * d.frames, UpTo(d.rdf, i) * 4096, d.nq * d.frames * 2 + 64), "n_r and the counts")

Angles(d) ==
  LET n == d.n  ts == 1..n
      xyt(k) == AddUp([x \in 1..2 |-> AddUp([y \in 1..2 |-> d.xyt[x][y][k]])])
      r12(k) == AddUp(d.r12[k])
      both(x, y) == Eq(AddUp(d.xyt[x][y]), d.xy[x][y], d.grey)
  IN If(\A x, y \in 1..2 : both(x, y), "PMFTXYT and PMFTXY: numbers of bonds")
     \cup If(\A k \in ts : Eq(xyt(k), r12(((k - 1 + n \div 2) % n) + 1), d.grey), "PMFTXYT and PMFTR12: angles")
     \cup If(Eq(AddUp([k \in ts |-> r12(k)]), d.bonds, d.edge), "PMFTR12 and the neighbor list: number of bonds")
Quads(d) ==
  LET t2(k) == AddUp([j \in DOMAIN d.r12 |-> d.r12[j][k]]) IN
  If(/\ Eq(t2(1), d.xy[1][2], d.grey) /\ Eq(t2(2), d.xy[2][2], d.grey) /\ Eq(t2(3), d.xy[2][1], d.grey) /\ Eq(t2(4), d.xy[1][1], d.grey), "PMFTR12 and PMFTXY: quadrants")
  \cup If(Eq(AddUp([x \in 1..2 |-> AddUp(d.xy[x])]), d.bonds, d.edge), "PMFTXY and the neighbor list: number of bonds")

Octants(d) ==
  LET s(v) == IF v > 8 THEN {1} ELSE IF v < -8 THEN {-1} ELSE {1, -1}
      want(t, p) == <<IF t \in {1, 4} THEN 1 ELSE -1, IF t \in {1, 2} THEN 1 ELSE -1, IF p = 1 THEN 1 ELSE -1>>
      may(t, p) == HowMany(d.proj, LAMBDA v : \A c \in 1..3 : want(t, p)[c] \in s(v[c]))
      must(t, p) == HowMany(d.proj, LAMBDA v : \A c \in 1..3 : s(v[c]) = {want(t, p)[c]})
  IN If(\A t \in 1..4, p \in 1..2 : d.counts[t][p] >= must(t, p) /\ d.counts[t][p] <= may(t, p), "BondOrder and LocalBondProjection: directions")
     \cup If(AddUp([t \in 1..4 |-> AddUp(d.counts[t])]) = d.bonds, "BondOrder and the neighbor list: number of bonds")
     \cup If(d.modes[1] = d.modes[2] /\ d.modes[1] = d.modes[3], "BondOrder: modes of unturned points")
     \cup If(AddUp(d.modes[1]) = d.bonds, "BondOrder and the neighbor list: number of bonds")

Local(d) ==
  LET lo(i) == HowMany(d.d[i], LAMBDA x : x < d.r - (d.dia \div 2) - 4)
      hi(i) == HowMany(d.d[i], LAMBDA x : x < d.r + (d.dia \div 2) + 4)
      vol == IF d.dim = 2 THEN RMul(RPi, RMul(d.real.r, d.real.r)) ELSE RMul(RQuot(4, 3), RMul(RPi, RPow(d.real.r, 3)))
  IN If(Len(d.num) = Len(d.d) /\ \A i \in DOMAIN d.d : d.num[i] >= lo(i) * 65536 - 16 /\ d.num[i] <= hi(i) * 65536 + 16, "LocalDensity and the neighbor list: number of neighbors")
     \cup If(\A i \in DOMAIN d.num : RNear(RMul(d.real.dens[i], vol), d.real.num[i], 9), "LocalDensity: density and number of neighbors")

Ends(d) == If(Vals(d.pid) = Vals(d.p) /\ Rising(d.pid) /\ d.np = Len(d.pid), "Interface and the neighbor list: points")
           \cup If(Vals(d.qid) = Vals(d.q) /\ Rising(d.qid) /\ d.nq = Len(d.qid), "Interface and the neighbor list: query points")

Clusters(d) ==
  UNION { LET c == d.one[k]  t == c.gyr[1][1] + c.gyr[2][2] + c.gyr[3][3] IN
     If(c.n = c.size, "ClusterProperties and Cluster: sizes")
     \cup If(Eq(AddUp(c.w), c.mass, 2 + c.n), "ClusterProperties: masses")
     \cup If(\A x \in 1..3 : Ab(c.geo[x]) <= 2, "ClusterProperties and Box: centers")
     \cup If(\A x \in 1..3 : Ab(c.com[x]) <= 2, "ClusterProperties and Box: centers of mass")
     \cup If(c.plain => \A x, y \in 1..3 : Eq(c.inertia[x][y], c.n * ((IF x = y THEN t ELSE 0) - c.gyr[x][y]), 3 * c.n + 8 + c.n * (t \div 4096)), "ClusterProperties: inertia and gyration tensors")
     \cup If(\/ c.rg[1] = 0 \/ RNear(c.tr, RMul(RInt(2), RMul(c.m, RMul(c.rg, c.rg))), 8) \/ RClose(c.tr, RMul(RInt(2), RMul(c.m, RMul(c.rg, c.rg))), 9), "ClusterProperties: inertia tensors and radii of gyration")
     : k \in DOMAIN d.one }

Windows(d) ==
  LET n == Len(d.win) IN
  If(\A m \in 1..n : LET k == n - m + 1  s == AddUp([j \in 1..k |-> d.tails[j][m]]) IN Eq(k * d.win[m], s, 8 * n + (s \div 8192) + (Last(d.tails[1]) \div 8192)), "MSD of windows and of frames")

Voxels(d) ==
  If(Len(d.vox) = Len(d.d) /\ \A i \in DOMAIN d.d : IF d.d[i] < d.r - 8 THEN d.vox[i] = 1 ELSE IF d.d[i] > d.r + 8 THEN d.vox[i] = 0 ELSE TRUE, "SphereVoxelization and the nearest points of voxels")
  \cup If(Len(d.dens) = Len(d.d) /\ \A i \in DOMAIN d.d : IF d.d[i] < d.r - 8 THEN d.dens[i] = 1 ELSE IF d.d[i] > d.r + 8 THEN d.dens[i] = 0 ELSE TRUE, "GaussianDensity and the nearest points of voxels")

Separations(d) == If(Len(d.angles) = Len(d.bonds) /\ \A b \in DOMAIN d.bonds : LET i == d.bonds[b][1] + 1  j == d.bonds[b][2] + 1 IN
                       (j <= Len(d.table) /\ i <= Len(d.table[1])) => Eq(d.angles[b], d.table[j][i], 4), "AngularSeparationNeighbor and AngularSeparationGlobal")
Turns(d) ==
  If(Len(d.order) = Len(d.angle) /\ \A i \in DOMAIN d.order : Eq(3 * d.order[i], 16384 + 2 * CosT(RadToTurn(d.angle[i])), 80) /\ Ab(d.imag[i]) <= 4, "RotationalAutocorrelation and AngularSeparationGlobal")
  \cup If(Eq(AddUp(d.order), Len(d.order) * d.mean, 2 * Len(d.order)), "RotationalAutocorrelation: order and particle_order")
Projections(d) ==
  If(Len(d.proj) = Len(d.v) /\ \A b \in DOMAIN d.v : \A c \in 1..3 : Eq(d.proj[b][c], d.v[b][((d.first + c - 1) % 3) + 1], 3), "LocalBondProjection and the neighbor list: vectors")
  \cup If(Len(d.norm) = Len(d.v) /\ \A b \in DOMAIN d.v : Eq(AddUp([c \in 1..3 |-> (d.norm[b][c] * d.norm[b][c]) \div 8192]), 8192, 16), "LocalBondProjection: lengths")
Copies(d) ==
  If(\A i \in DOMAIN d.a : LET a == d.a[i]  b == d.b[i] IN
       /\ Len(a) >= HowMany(b, LAMBDA x : x < d.r - 4) /\ Len(a) <= HowMany(b, LAMBDA x : x < d.r + 4)
       /\ \A k \in DOMAIN a : k > Len(b) \/ Eq(a[k], b[k], 4), "PeriodicBuffer and neighbors in the periodic box")
Distances(d) ==
  If(Each(d.nl, d.box, 2), "Box.compute_distances and the neighbor list")
  \cup If(Rows(d.v, d.w, 2), "Box.wrap and the vectors of the neighbor list")
  \cup If(Each(d.all, d.table, 2), "Box.compute_all_distances and NeighborList.all_pairs")
Images(d) ==
  If(Rows(d.x, d.back, 2), "Box.wrap, get_images and unwrap")
  \cup If(Rows(d.x, d.abs, 2), "Box.make_fractional and make_absolute")
  \cup If(Len(d.w) = Len(d.x) /\ \A i \in DOMAIN d.w : d.grey[i] = 1 \/ Each(d.w[i], d.again[i], 2), "Box.unwrap and wrap")
  \cup If(\A i \in DOMAIN d.w : d.grey[i] = 1 \/ (d.contains[i] = 1 /\ d.containsx[i] = 1 - d.far[i]), "Box.contains, wrap and get_images")
Weights(d) ==
  If(Rows(d.parts[1], d.parts[2], 4), "Hexatic with equal weights and without weights") \cup If(Rows(d.parts[1], d.parts[3], 4), "Hexatic without weights of weighted bonds")
  \cup If(d.rdf[1] = d.rdf[2], "RDF of weighted bonds")
Free(d) ==
  LET m == CHOOSE i \in DOMAIN d.counts : \A j \in DOMAIN d.counts : d.counts[j] <= d.counts[i] IN
  If(Len(d.counts) = Len(d.pmft) /\ \A i \in DOMAIN d.counts :
       IF d.counts[i] = 0 THEN d.pmft[i] = NONINT
       ELSE d.pmft[i] >= d.pmft[m] - 64 /\ RNear(RExpNeg(IF d.pmft[i] > d.pmft[m] THEN d.pmft[i] - d.pmft[m] ELSE 0), RQuot(d.counts[i], d.counts[m]), 9), "pmft and bin_counts")

Verdict(e) ==
  IF e.exc # "" THEN {"analyses of one system are rejected: " \o e.exc} ELSE
  LET d == e.d  p == e.a.pair IN
  CASE p \in {"counts", "cumulative"} -> Counts(d)
    [] p = "angles of bonds" -> Angles(d)
    [] p = "quadrants" -> Quads(d)
    [] p = "octants" -> Octants(d)
    [] p = "local density" -> Local(d)
    [] p = "ends" -> Ends(d)
    [] p \in {"centre", "one cluster"} -> Clusters(d)
    [] p = "windows" -> Windows(d)
    [] p = "voxels" -> Voxels(d)
    [] p = "separations of orientations" -> Separations(d)
    [] p = "turns" -> Turns(d)
    [] p = "projections" -> Projections(d)
    [] p = "copies" -> Copies(d)
    [] p = "distances" -> Distances(d)
    [] p = "images" -> Images(d)
    [] p = "weights" -> Weights(d)
    [] p = "free energy" -> Free(d)
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
