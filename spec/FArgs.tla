-------------------------------- MODULE FArgs --------------------------------
(* Arguments that have to fit each other (A01) and settings that have a domain (A02).

   The machine: a call receives points (np rows) and query points (nq rows), one row of
   per-point data for each (rows pv, qv) and a neighbor list that was made for lq query points
   and lp points.  It either rejects the call or visits the list's bonds in any order, reading
   the rows of both ends and writing the output row of the query point.  Every access must be
   inside its array, and a call that fits is never rejected.  A faulty machine omits one of the
   comparisons ("values", "qvalues", "listq", "listp") or rejects calls that fit ("strict").   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
CONSTANTS MaxN, Faults
Named == {IOEnv.FAULT}

VARIABLES size, todo, phase, reads, fault
vars == <<size, todo, phase, reads, fault>>
Sizes == [np : 1..MaxN, nq : 1..MaxN, pv : 1..MaxN, qv : 1..MaxN, lq : 1..MaxN, lp : 1..MaxN]

FitsSizes(s) == s.pv = s.np /\ s.qv = s.nq /\ s.lq = s.nq /\ s.lp = s.np
Accepts(s, f) == /\ (f = "values" \/ s.pv = s.np) /\ (f = "qvalues" \/ s.qv = s.nq)
                 /\ (f = "listq" \/ s.lq = s.nq) /\ (f = "listp" \/ s.lp = s.np)
                 /\ ~(f = "strict" /\ s.np # s.nq)

Init == /\ size \in Sizes /\ fault \in Faults /\ phase = "called" /\ reads = {}
        /\ todo \in SUBSET {<<i, j>> : i \in {1, size.lq}, j \in {1, size.lp}}
Check == /\ phase = "called"
         /\ phase' = IF Accepts(size, fault) THEN "running" ELSE "rejected"
         /\ UNCHANGED <<size, todo, reads, fault>>
Visit == /\ phase = "running" /\ todo # {}
         /\ \E b \in todo : /\ todo' = todo \ {b}
                            /\ reads' = reads \cup {<<"p", b[2]>>, <<"pv", b[2]>>, <<"q", b[1]>>, <<"qv", b[1]>>, <<"out", b[1]>>}
         /\ UNCHANGED <<size, phase, fault>>
Done == phase = "running" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<size, todo, reads, fault>>
Next == Check \/ Visit \/ Done
Spec == Init /\ [][Next]_vars

RowsOf(a) == CASE a = "p" -> size.np [] a = "pv" -> size.pv [] a = "q" -> size.nq [] a = "qv" -> size.qv [] OTHER -> size.nq
InBounds == \A r \in reads : r[2] <= RowsOf(r[1])
Fair == phase = "rejected" => ~FitsSizes(size)
Whole == phase \in {"running", "done"} => FitsSizes(size)
Right == InBounds /\ Fair /\ Whole

-----------------------------------------------------------------------------
(* The shapes every class asks for.  A negative entry is a variable: *)
N == -1     \* number of points
M == -2     \* number of query points (of points where there are none)
X == -3     \* any number of rows
R == -4     \* rows of ref_orientations
F == -5     \* frames of positions
P == -6     \* particles of positions
B == -7     \* rows of query_point_indices
Quat == <<N, 4>>
QQuat == <<M, 4>>
Shapes(cls, a) ==
  CASE a \in {"points", "query_points"} -> <<X, 3>>
    [] a \in {"keys", "cluster_idx", "masses", "values", "weights", "points_radii"} /\ cls # "FromArrays" -> <<N>>
    [] a \in {"query_values", "query_points_radii"} -> <<M>>
    [] a = "orientations" /\ cls \in {"PMFTR12", "PMFTXYT"} -> <<N>>
    [] a = "query_orientations" /\ cls \in {"PMFTR12", "PMFTXYT", "PMFTXY"} -> <<M>>
    [] a = "orientations" /\ cls \in {"AngularSeparationGlobal", "Cubatic"} -> <<X, 4>>
    [] a = "orientations" /\ cls = "RotationalAutocorrelation" -> <<R, 4>>
    [] a = "orientations" -> Quat
    [] a = "query_orientations" -> QQuat
    [] a \in {"global_orientations", "equiv_orientations", "ref_orientations"} -> <<X, 4>>
    [] a = "proj_vecs" -> <<X, 3>>
    [] a = "view_orientation" -> <<4>>
    [] a = "positions" -> <<X, X, 3>>
    [] a = "images" -> <<F, P, 3>>
    [] a = "query_point_indices" -> <<X>>
    [] a \in {"point_indices", "weights"} -> <<B>>
    [] a = "vectors" -> <<B, 3>>

\* arg: sequence of [n name, s shape, t "num" or "text"]; ones of a call
Has(arg, n) == \E i \in DOMAIN arg : arg[i].n = n
Dim(arg, n, k) == IF Has(arg, n)
                  THEN LET s == arg[CHOOSE i \in DOMAIN arg : arg[i].n = n].s IN IF k \in DOMAIN s THEN s[k] ELSE -9
                  ELSE -9
Val(arg, v) == CASE v = N -> Dim(arg, "points", 1)
                 [] v = M -> IF Has(arg, "query_points") THEN Dim(arg, "query_points", 1) ELSE Dim(arg, "points", 1)
                 [] v = R -> Dim(arg, "ref_orientations", 1)
                 [] v = F -> Dim(arg, "positions", 1)
                 [] v = P -> Dim(arg, "positions", 2)
                 [] v = B -> Dim(arg, "query_point_indices", 1)
                 [] OTHER -> v
\* the concrete shape asked for, given the shape offered
Wanted(arg, cls, a) ==
  LET w == Shapes(cls, a.n) IN
  [k \in DOMAIN w |-> IF w[k] = X THEN (IF Len(a.s) = Len(w) THEN a.s[k] ELSE 1) ELSE Val(arg, w[k])]
Squeeze(s) == SelectSeq(s, LAMBDA x : x # 1)
Exact(arg, cls, a) == a.t = "num" /\ a.s = Wanted(arg, cls, a)
\* another arrangement of the same numbers, which a class may accept or not
Loose(arg, cls, a) == a.t = "num" /\ Squeeze(a.s) = Squeeze(Wanted(arg, cls, a))
Empty(arg) == \E i \in DOMAIN arg : \E k \in DOMAIN arg[i].s : arg[i].s[k] = 0
\* the list has to be made for exactly these points, except where only the list is used
ListFits(arg, nl) == nl = <<>> \/ nl = <<Val(arg, M), Val(arg, N)>>
OnlyList(cls, nl) == cls = "Interface" /\ nl # <<>>
Fits(cls, arg, nl) == /\ ~Empty(arg) /\ ~OnlyList(cls, nl) /\ ListFits(arg, nl)
                      /\ \A i \in DOMAIN arg : Exact(arg, cls, arg[i])
Misfits(cls, arg, nl) == /\ ~Empty(arg) /\ ~OnlyList(cls, nl)
                         /\ \/ ~ListFits(arg, nl)
                            \/ \E i \in DOMAIN arg : ~Loose(arg, cls, arg[i])

-----------------------------------------------------------------------------
(* Domains of the settings; numbers in quarters, o a record of the settings given.
   "in": must be accepted, "out": must be rejected, "open": either.                           *)
Judge(must, may) == IF must THEN "in" ELSE IF may THEN "open" ELSE "out"
AllPos(s) == \A k \in DOMAIN s : s[k] > 0
AllNonNeg(s) == \A k \in DOMAIN s : s[k] >= 0
Domain(cls, o) ==
  CASE cls = "RDF" -> Judge(o.bins >= 1 /\ o.r_max > 0 /\ o.r_min >= 0 /\ o.r_max > o.r_min /\ o.mode \in {"exact", "finite_size"}, FALSE)
    [] cls = "CorrelationFunction" -> Judge(o.bins >= 1 /\ o.r_max > 0, FALSE)
    [] cls = "LocalDensity" -> Judge(o.r_max > 0 /\ o.diameter >= 0, FALSE)
    [] cls = "GaussianDensity" -> Judge(Len(o.width) \in {1, 2, 3} /\ AllPos(o.width) /\ o.r_max > 0 /\ o.sigma > 0,
                                        Len(o.width) \in {1, 2, 3} /\ AllNonNeg(o.width) /\ o.r_max > 0)
    [] cls = "SphereVoxelization" -> Judge(Len(o.width) \in {1, 2, 3} /\ AllPos(o.width) /\ o.r_max > 0,
                                           Len(o.width) \in {1, 2, 3} /\ AllNonNeg(o.width) /\ o.r_max > 0)
    [] cls \in {"PMFTR12", "PMFTXY", "PMFTXYT", "PMFTXYZ"} ->
         LET d == IF cls = "PMFTXY" THEN 2 ELSE 3 IN
         Judge(Len(o.bins) \in {1, d} /\ AllPos(o.bins) /\ AllPos(o.max), Len(o.bins) \in {1, d} /\ AllPos(o.bins) /\ AllNonNeg(o.max))
    [] cls = "BondOrder" -> Judge(Len(o.bins) \in {1, 2} /\ (\A k \in DOMAIN o.bins : o.bins[k] >= 2) /\ o.mode \in {"bod", "lbod", "obcd", "oocd"}, FALSE)
    [] cls = "Cubatic" -> Judge(o.t_initial > o.t_final /\ o.t_final > 0 /\ o.scale > 0 /\ o.scale < 4 /\ o.n >= 1,
                                o.t_initial >= o.t_final /\ o.t_final > 0 /\ o.scale > 0 /\ o.scale < 4 /\ o.n >= 0)
    [] cls = "RotationalAutocorrelation" -> Judge(o.l > 0 /\ o.l % 2 = 0, o.l = 0)
    [] cls = "Hexatic" -> Judge(o.k >= 1, o.k = 0)
    [] cls = "MSD" -> Judge(o.mode \in {"window", "direct"}, FALSE)
    [] cls = "StaticStructureFactorDebye" -> Judge(o.n >= 2 /\ o.k_max > 0 /\ o.k_min >= 0 /\ o.k_max > o.k_min,
                                                   o.n = 1 /\ o.k_max > 0 /\ o.k_min >= 0 /\ o.k_max > o.k_min)
    \* r_max, r_min, scale and num_neighbors are sequences, empty when not given
    [] cls \in {"AABBQuery.query", "LinkCell.query"} ->
         LET near == o.mode = "nearest" \/ (o.mode \in {"", "none"} /\ o.n # <<>>)
             ball == o.mode = "ball" \/ (o.mode \in {"", "none"} /\ o.n = <<>> /\ o.r_max # <<>>)
             rmin == IF o.r_min = <<>> THEN 0 ELSE o.r_min[1]
             scale == IF o.scale = <<>> THEN 8 ELSE o.scale[1] IN
         IF o.key # "" \/ o.mode \notin {"", "none", "ball", "nearest"} \/ ~(near \/ ball) THEN "out"
         ELSE IF ball THEN IF o.r_max = <<>> \/ o.n # <<>> THEN "out"
                           ELSE IF o.r_max[1] <= 0 \/ o.r_max[1] <= rmin THEN "out"
                           ELSE IF rmin < 0 \/ scale <= 4 THEN "open" ELSE "in"
         ELSE IF o.n = <<>> THEN "out" ELSE IF o.n[1] <= 0 THEN "out"
         ELSE IF scale <= 4 THEN IF cls = "AABBQuery.query" THEN "out" ELSE "open"
         ELSE IF rmin < 0 \/ (o.r_max # <<>> /\ (o.r_max[1] <= 0 \/ o.r_max[1] <= rmin)) THEN "open" ELSE "in"
    \* points of a two-dimensional box lie in its plane; z in thousandths
    [] cls = "Plane" -> Judge(\A k \in DOMAIN o.z : o.z[k] = 0, ~o.two)
    [] cls = "LinkCell" -> Judge(o.w >= 0 /\ 2 * o.w <= o.plane, FALSE)
    [] OTHER -> "open"
=============================================================================
