----------------------------- MODULE FLargeTrace -----------------------------
(* Recorded large systems: what the real code told of the items looked at (s, t, u), judged by the
   rules for lattices and formulas of FLarge. *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
G == INSTANCE FLarge WITH MaxN <- 1, Word <- 1, MaxF <- 1, Depth <- 0, Faults <- {}, n <- 1, i <- 0, f <- 0, cells <- <<>>, total <- 0, log <- <<>>, fault <- 0
Ab(x) == IF x < 0 THEN -x ELSE x
Each(s, P(_)) == \A a \in DOMAIN s : P(a)
Size(N) == N[1] * N[2] * N[3]
Min(a, b) == IF a < b THEN a ELSE b

Query(d) ==
  LET N == d.n
      want(a) == G!Near(N, d.s[a], d.r2) \cup (IF d.part THEN {d.s[a]} ELSE {})
      z == Cardinality(G!Steps(N, d.r2)) + (IF d.part THEN 1 ELSE 0)
      r(a) == IF d.part THEN a - 1 ELSE d.s[a]
  IN If(Each(d.s, LAMBDA a : SeqSet(d.got[a]) = want(a) /\ Len(d.got[a]) = z), "neighbors")
     \cup If(Each(d.s, LAMBDA a : Each(d.got[a], LAMBDA b : d.d2[a][b] = G!Sq(N, d.s[a], d.got[a][b]))), "distances")
     \cup If(d.bonds = z * (IF d.part THEN Len(d.s) ELSE Size(N)), "number of bonds")
     \cup If(Each(d.s, LAMBDA a : d.seg[a] = z * r(a) /\ d.cnt[a] = z /\ d.first[a] = z * r(a)), "segments of bonds")
OnePoint(d) ==
  If(d.num = Size(d.n) /\ d.count = Size(d.n) /\ d.dens = Size(d.n), "number of neighbors of one point")
  \cup If(d.sorted = d.s /\ d.first = d.before, "neighbors of one point")
\* bond c: c \div 2 -> 7c mod n, with length (5c mod 1000)/8
NList(d) ==
  If(d.num = 2 * d.n, "number of bonds")
  \cup If(Each(d.s, LAMBDA a : LET c == d.s[a] IN /\ d.q[a] = c \div 2 /\ d.j[a] = (7 * c) % d.n /\ d.d[a] = (5 * c) % 1000 /\ d.x[a] = d.d[a] /\ d.w[a] = c % 9), "bonds")
  \cup If(Each(d.t, LAMBDA a : d.seg[a] = 2 * d.t[a] /\ d.cnt[a] = 2 /\ d.first[a] = 2 * d.t[a]), "segments of bonds")
\* of 200 bonds in a row, one has every length 0, 5, .. 995: those kept are the same in every period
Kept(lo, hi) == {c \in 0..199 : LET l == (5 * c) % 1000 IN lo <= l /\ l < hi}
Nth(S, m) == CHOOSE c \in S : Cardinality({e \in S : e < c}) = m
Filtered(d) ==
  IF d.how = "every other"
  THEN If(d.num = d.n, "number of bonds")
       \cup If(Each(d.s, LAMBDA a : LET b == d.s[a]  c == 2 * b IN d.q[a] = b /\ d.j[a] = (7 * c) % d.n /\ d.d[a] = (5 * c) % 1000 /\ d.seg[a] = b /\ d.cnt[a] = 1), "bonds kept")
  ELSE LET S == Kept(d.lo, d.hi)  z == Cardinality(S) IN
       If(d.num = ((2 * d.n) \div 200) * z /\ (2 * d.n) % 200 = 0, "number of bonds kept")
       \cup If(Each(d.s, LAMBDA a : LET c == 200 * (d.s[a] \div z) + Nth(S, d.s[a] % z) IN
                 d.q[a] = c \div 2 /\ d.j[a] = (7 * c) % d.n /\ d.d[a] = (5 * c) % 1000), "bonds kept")
       \cup If(d.bad = 0, "segments of bonds kept")
AllPairs(d) ==
  LET drop == IF d.x THEN 1 ELSE 0
      \* bond b of query point q: every point but that of the same number
      row(q) == d.n - (IF d.x /\ q < d.n THEN 1 ELSE 0)
      before(q) == q * d.n - (IF d.x THEN Min(q, d.n) ELSE 0)
      nth(q, m) == IF d.x /\ q < d.n /\ m >= q THEN m + 1 ELSE m
  IN If(d.num = before(d.m), "number of pairs")
     \cup If(Each(d.s, LAMBDA a : LET q == d.q[a]  b == d.s[a] IN
               /\ q \in 0..d.m - 1 /\ before(q) <= b /\ b < before(q + 1) /\ d.j[a] = nth(q, b - before(q))
               /\ d.d[a] = (d.j[a] % 100) + 1 + (q % 100)), "pairs")
\* pairs (0,1) (2,3) ..., and the last three points together
Clusters(d) ==
  LET idx(k) == IF k >= d.n - 3 THEN 0 ELSE 1 + k \div 2
  IN If(d.num = 1 + (d.n - 3) \div 2 /\ d.all = d.num, "number of clusters")
     \cup If(Each(d.s, LAMBDA a : d.idx[a] = idx(d.s[a])), "clusters of points")
     \cup If(Each(d.t, LAMBDA a : d.keys[a] = IF d.t[a] = 0 THEN <<d.n - 3, d.n - 2, d.n - 1>> ELSE <<2 * d.t[a] - 2, 2 * d.t[a] - 1>>), "points of clusters")
Props(d) ==
  LET m(k) == (k % 5) + 1
      two(c) == m(2*c - 2) + m(2*c - 1)
      ok(a) == LET c == d.t[a] IN
        IF c = 0 THEN d.sizes[a] = 3 /\ d.mass[a] = m(d.n - 3) + m(d.n - 2) + m(d.n - 1) /\ d.cen[a] = <<0, 4, 20>>
        ELSE /\ d.sizes[a] = 2 /\ d.mass[a] = two(c) /\ d.cen[a] = <<4, 4 * ((c - 1) % 64), 0>>
             /\ Ab(d.com[a] * two(c) - 2 * 840 * m(2*c - 1)) <= 4 * two(c)
  IN If(d.num = 1 + (d.n - 3) \div 2, "number of clusters") \cup If(Each(d.t, ok), "properties of clusters")
\* bond c falls into bin 13c mod B; the first K - B of every B bonds come twice
Twice(B, K, c) == IF c % B < K - B THEN 2 ELSE 1
Bins(d) ==
  If(d.num = d.K /\ d.len = d.B, "numbers of bonds and bins")
  \cup If(Each(d.s, LAMBDA a : d.got[a] = Twice(d.B, d.K, d.s[a])), "bonds of bins")
  \cup If(Each(d.s, LAMBDA a : LET x == (13 * d.s[a]) % d.B IN d.cen[a] = 2 * x + 1 /\ d.edge[a] = x), "edges and centers of bins")
Corr(d) ==
  Bins(d) \cup If(Each(d.s, LAMBDA a : LET c == d.s[a] % d.B IN
                    d.corr[a] = IF Twice(d.B, d.K, c) = 2 THEN (c % 7) + ((c + d.B) % 7) ELSE 2 * (c % 7)), "mean values of bins")
Grid3(d) ==
  If(d.num = d.K /\ Size(d.shape) = d.B /\ d.shape = d.n, "numbers of bonds and bins")
  \cup If(Each(d.s, LAMBDA a : d.got[a] = Twice(d.B, d.K, d.s[a])), "bonds of bins")
Frames(d) ==
  If(Len(d.yF) = Len(d.y1) /\ Each(d.y1, LAMBDA a : Ab(d.y1[a] - d.yF[a]) <= 8), "the same frame again and again")
  \cup If(Len(d.c1) = Len(d.cF) /\ Each(d.c1, LAMBDA a : d.cF[a] = d.F * d.c1[a]), "counts of the same frame again and again")
Around(n, x) == LET i == x \div n[2]  j == x % n[2] IN
                {x, ((i + 1) % n[1]) * n[2] + j, ((i + n[1] - 1) % n[1]) * n[2] + j, i * n[2] + ((j + 1) % n[2]), i * n[2] + ((j + n[2] - 1) % n[2])}
Grid(d) ==
  UNION { LET e == d.got[a] IN
     If(e.top = <<e.x \div d.n[2], e.x % d.n[2]>>, "where the density is largest")
     \cup If(SeqSet(e.on) = Around(d.n, e.x), "voxels near a point") : a \in DOMAIN d.got }
Local(d) == If(Each(d.s, LAMBDA a : d.num[a] = d.s[a] % 7), "numbers of neighbors")
Psi(d) ==
  LET re(k) == CASE k % 4 = 0 -> 1000 [] k % 4 = 2 -> -1000 [] OTHER -> 0
      im(k) == CASE k % 4 = 1 -> 1000 [] k % 4 = 3 -> -1000 [] OTHER -> 0
  IN If(Each(d.s, LAMBDA a : Ab(d.re[a] - re(d.s[a])) <= 1 /\ Ab(d.im[a] - im(d.s[a])) <= 1), "order parameters")
     \cup If(Each(d.s, LAMBDA a : Ab(d.proj[a] - re(d.s[a])) <= 1), "projections")
Inter(d) ==
  \* query points 0, 2, .., and their points (3q + 1) mod n, which are all different
  LET m == (d.n + 1) \div 2
      inv(p) == {q \in {(p - 1 + d.n * e) : e \in 0..3} : q % 3 = 0 /\ (q \div 3) % 2 = 0 /\ q \div 3 < d.n}
  IN If(d.num = <<m, m, m, m>>, "numbers of points at the interface")
     \cup If(Each(d.t, LAMBDA a : d.q[a] = 2 * d.t[a] /\ inv(d.p[a]) # {}), "points at the interface")
Msd(d) ==
  LET x(t, a) == (t % 50) * (1 + (a % 3))
      fac(m) == LET z == m \div 3  r == m % 3 IN z * 14 + (IF r > 0 THEN 1 ELSE 0) + (IF r > 1 THEN 4 ELSE 0)
      sq(t) == (t % 50) * (t % 50)
      \* 64 * sq * fac / m, without large numbers
      want(t) == 64 * sq(t) * (fac(d.m) \div d.m) + (sq(t) * ((12800 * (fac(d.m) % d.m)) \div d.m)) \div 200
  IN If(d.all = d.n /\ Each(d.s, LAMBDA a : Each(d.u, LAMBDA b : d.part[a][b] = x(d.s[a], d.u[b]) * x(d.s[a], d.u[b]))), "displacements of particles")
     \cup If(Each(d.s, LAMBDA a : Ab(d.msd[a] - want(d.s[a])) <= 4 + sq(d.s[a]) \div 100 + want(d.s[a]) \div 10000), "mean displacements")
Wrapped(d) ==
  \* x in halves: 2c mod 400 - 201 etc.; boxes of 128 x 64 x 32 halves
  LET x(c) == <<2 * (c % 200) - 201, 2 * (c % 77) - 77, 2 * (c % 31) - 31>>
      L == <<128, 64, 32>>
      w(c) == [k \in 1..3 |-> ((x(c)[k] + L[k] \div 2 + 8 * L[k]) % L[k]) - L[k] \div 2]
      dd(c) == [k \in 1..3 |-> LET y == ((x(c)[k] - 1 + 8 * L[k]) % L[k]) IN Min(y, L[k] - y)]
  IN If(Each(d.s, LAMBDA a : d.y[a] = w(d.s[a])), "wrapped points")
     \cup If(Each(d.s, LAMBDA a : \A k \in 1..3 : d.im[a][k] * L[k] = x(d.s[a])[k] - w(d.s[a])[k]), "images")
     \cup If(Each(d.s, LAMBDA a : d.u[a] = x(d.s[a])), "unwrapped points")
     \cup If(Each(d.s, LAMBDA a : LET v == dd(d.s[a]) IN 4 * d.d2[a] = v[1]*v[1] + v[2]*v[2] + v[3]*v[3]), "distances")
     \cup If(Each(d.s, LAMBDA a : \A k \in 1..3 : d.f[a][k] * L[k] = 4096 * (x(d.s[a])[k] + L[k] \div 2)), "fractions")
Verdict(e) ==
  IF e.exc # "" THEN {"raised " \o e.exc} ELSE
  LET d == e.d  p == e.a.what IN
  CASE p \in {"query", "nearest", "rad"} -> Query(d)
    [] p = "one" -> OnePoint(d)
    [] p = "nlist" -> NList(d)
    [] p = "filtered" -> Filtered(d)
    [] p = "pairs" -> AllPairs(d)
    [] p = "clusters" -> Clusters(d)
    [] p = "properties" -> Props(d)
    [] p = "rdf" -> Bins(d)
    [] p = "correlation" -> Corr(d)
    [] p = "pmft" -> Grid3(d)
    [] p = "frames" -> Frames(d)
    [] p = "grid" -> Grid(d)
    [] p = "local" -> Local(d)
    [] p = "psi" -> Psi(d)
    [] p = "ends" -> Inter(d)
    [] p = "msd" -> Msd(d)
    [] p = "wrap" -> Wrapped(d)
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
