------------------------------ MODULE FSymmetry ------------------------------
(* Descriptions of one periodic system (W01).  A system can be described with any image of any
   particle, in any order, from any origin and with any of its axes first; an analysis has to
   say the same thing, in the order in which the particles were given.

   The machine: the description is a sequence of positions on a ring of L sites (any integers)
   together with the particle each entry stands for; it is re-described step by step, and an
   analysis (the number of neighbors of every particle within one site, and the histogram of
   all separations) is evaluated on the description as given.  Faulty analyses: "raw" (does not
   wrap separations), "half" (keeps only bonds to entries listed later), "origin" (separations
   measured from site 0), "slot" (results in the order of the particles, not of the entries). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS L, Sites, Depth, Faults
Named == {IOEnv.FAULT}
VARIABLES pos, who, dir, log, fault
vars == <<pos, who, dir, log, fault>>
n == Len(Sites)
MCSites == <<0, 1, 4, 2>>

Wrapped(d) == LET m == d % L IN IF 2 * m >= L THEN m - L ELSE m
Abs1(x) == IF x < 0 THEN -x ELSE x
Sep(f, a, b) == IF f = "raw" THEN b - a ELSE IF f = "origin" THEN Abs1(Wrapped(b)) - Abs1(Wrapped(a)) ELSE Wrapped(b - a)
Near(f, p, i, j) == i # j /\ Abs1(Sep(f, p[i], p[j])) <= 1 /\ (f = "half" => i < j)
Count(f, p) == [i \in 1..n |-> Cardinality({j \in 1..n : Near(f, p, i, j)})]
Hist(f, p) == [r \in 0..(L \div 2) |-> Cardinality({x \in (1..n) \X (1..n) : x[1] # x[2] /\ Abs1(Sep(f, p[x[1]], p[x[2]])) = r})]
Told(f) == IF f = "slot" THEN [i \in 1..n |-> Count(f, pos)[CHOOSE k \in 1..n : who[k] = i]] ELSE Count(f, pos)

Init == pos = Sites /\ who = [i \in 1..n |-> i] /\ dir = 1 /\ log = <<>> /\ fault \in Faults
Image == \E i \in 1..n, k \in {-1, 1} : pos' = [pos EXCEPT ![i] = @ + k * L] /\ UNCHANGED <<who, dir>>
Perm == \E i \in 1..n, j \in 1..n : i < j /\ pos' = [pos EXCEPT ![i] = pos[j], ![j] = pos[i]]
                                      /\ who' = [who EXCEPT ![i] = who[j], ![j] = who[i]] /\ UNCHANGED dir
Shift == \E v \in {-1, 2} : pos' = [i \in 1..n |-> pos[i] + v] /\ UNCHANGED <<who, dir>>
Turn == pos' = [i \in 1..n |-> -pos[i]] /\ dir' = -dir /\ UNCHANGED who
Step(name, A) == A /\ log' = Append(log, name) /\ UNCHANGED fault
Next == Len(log) < Depth /\ (Step("image", Image) \/ Step("perm", Perm) \/ Step("shift", Shift) \/ Step("turn", Turn))
Spec == Init /\ [][Next]_vars
\* what is said of entry i is what was said of the particle it stands for
Tells == /\ \A i \in 1..n : Told(fault)[i] = Count(fault, Sites)[who[i]]
         /\ Hist(fault, pos) = Hist(fault, Sites)

-----------------------------------------------------------------------------
\* histories of re-descriptions for the real code
Vecs == [1..3 -> -2..2]
GNext == /\ Len(log) < Depth /\ UNCHANGED <<pos, who, dir, fault>>
         /\ \E o \in {"image", "image", "perm", "shift", "turn"} : \E s \in {"p", "q"} : \E v \in {RandomElement(Vecs)} : \E k \in {RandomElement(1..1000)} :
              log' = Append(log, [op |-> o, s |-> s, v |-> v, k |-> k])
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars

-----------------------------------------------------------------------------
(* The relation every result of the real classes has to the one for the original description;
   ops: the kinds of re-description applied since.  "" : not judged.
   same: equal; rowsP/rowsQ: rows reordered as the points/query points; bonds: the same bonds
   between the particles (bondsD: without their vectors); bondrows: per-bond values of the same
   bonds; part: the same partition; bag: the same rows in any order; idsP/idsQ: the same
   particles; colsP: columns reordered.                                                     *)
Positions == {"shift", "turn"}
Rel(cls, res, ops) ==
  CASE res = "box" -> IF "turn" \in ops THEN "" ELSE "same"
    [] cls = "Cluster" -> (CASE res = "num_clusters" -> "same" [] res = "cluster_idx" -> "part" [] OTHER -> "bag")
    [] cls = "ClusterProperties" ->
         (IF res \in {"sizes", "cluster_masses", "radii_of_gyration"} THEN "same"
          ELSE IF res \in {"gyrations", "inertia_tensors"} THEN IF "turn" \in ops THEN "" ELSE "same"
          ELSE IF ops \cap Positions = {} THEN "same" ELSE "")
    [] cls \in {"CorrelationFunction", "RDF", "RDFFiniteSize", "StaticStructureFactorDebye"} -> "same"
    [] cls \in {"GaussianDensity", "GaussianDensity2D", "SphereVoxelization", "SphereVoxelization2D", "DiffractionPattern"} ->
         (IF ops \cap Positions = {} THEN "same" ELSE "")
    [] cls = "LocalDensity" -> "rowsQ"
    [] cls \in {"BondOrder", "BondOrder_lbod", "BondOrder_obcd", "BondOrder_oocd", "PMFTR12", "PMFTXY", "PMFTXYT", "PMFTXYZ"} ->
         (IF "turn" \in ops THEN "" ELSE "same")
    [] cls = "AngularSeparationNeighbor" -> IF res = "nlist" THEN (IF "turn" \in ops THEN "bondsD" ELSE "bonds") ELSE "bondrows"
    [] cls = "LocalBondProjection" -> IF res = "nlist" THEN (IF "turn" \in ops THEN "bondsD" ELSE "bonds")
                                       ELSE IF "turn" \in ops THEN "" ELSE "bondrows"
    [] cls = "AngularSeparationGlobal" -> "rowsP"
    [] cls = "Interface" -> (CASE res = "point_ids" -> "idsP" [] res = "query_point_ids" -> "idsQ" [] OTHER -> "same")
    [] cls = "PeriodicBuffer" -> IF ops \subseteq {"perm"} /\ res = "buffer_points" THEN "bag" ELSE ""
    [] cls \in {"FilterSANN", "FilterRAD", "FilterRADOpen"} -> IF "turn" \in ops THEN "bondsD" ELSE "bonds"
    [] cls \in {"MSD_window", "MSD_direct"} -> (IF res = "msd" THEN "same" ELSE "colsP")
    [] cls \in {"Hexatic", "HexaticWeighted"} -> "rowsP"
    [] cls = "RotationalAutocorrelation" -> (IF res = "order" THEN "same" ELSE "rowsP")
    \* other query points, but entries of the same number excluded: that depends on the numbers
    [] cls \in {"AABBQuery", "LinkCell"} /\ res \in {"ball_excluding", "nearest"} /\ "perm" \in ops -> ""
    [] cls \in {"AABBQuery", "LinkCell"} /\ res \in {"ball", "ball_excluding", "nearest"} -> IF "turn" \in ops THEN "bondsD" ELSE "bonds"
    [] OTHER -> ""
=============================================================================
