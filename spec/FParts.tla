-------------------------------- MODULE FParts --------------------------------
(* Large systems and their parts.

   W02: a periodic system repeated along its axes says of every copy what the single one says.
   W03: what is said of several (query) points is put together from what is said of parts of them.

   The machine: a ring of L sites with the points Sites, repeated m times; its points are
   divided step by step into parts.  An analysis counts, for every point of a part, the points
   of the ring within one site.  Faulty analyses: "narrow" (indices above 5 are lost), "cell"
   (separations wrapped by the single ring), "last" (the last of more than two entries is
   dropped), "rank" (rows of a part are numbered within the part), "carry" (what was said of the
   part before is still there).                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS L, Sites, MaxM, Depth, Faults
Named == {IOEnv.FAULT}
VARIABLES m, parts, log, fault
vars == <<m, parts, log, fault>>
MCSites == <<0, 1, 3>>
n == Len(Sites)
P(k) == [a \in 1..n*k |-> Sites[((a - 1) % n) + 1] + L * ((a - 1) \div n)]
Cell(a) == ((a - 1) % n) + 1
Wrapped(d, R) == LET r == d % R IN IF 2 * r >= R THEN r - R ELSE r
Abs1(x) == IF x < 0 THEN -x ELSE x
Near(f, k, a, b) == /\ a # b /\ Abs1(Wrapped(P(k)[b] - P(k)[a], IF f = "cell" THEN L ELSE L * k)) <= 1
                    /\ (f = "narrow" => b <= 5)
Count(f, k, a) == Cardinality({b \in 1..n*k : Near(f, k, a, b)})
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Rank(S, a) == Cardinality({x \in S : x <= a})
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
\* parts: a sequence of disjoint sets of points, analysed in this order
Row(f, S, a) == IF f = "last" /\ Cardinality(S) > 2 /\ a = MaxOf(S) THEN 0
                ELSE IF f = "rank" THEN Count(f, m, Rank(S, a)) ELSE Count(f, m, a)
Total(f, i) == Sum(parts[i], [a \in parts[i] |-> Row(f, parts[i], a)])
               + (IF f = "carry" /\ i > 1 THEN 1 ELSE 0)

Init == m = 1 /\ parts = <<1..n>> /\ log = <<>> /\ fault \in Faults
Rep == \E k \in 2..3 : /\ m * k <= MaxM /\ parts = <<1..n*m>> /\ m' = m * k /\ parts' = <<1..n*m*k>>
Cut == \E i \in DOMAIN parts : \E A \in SUBSET parts[i] :
          /\ A # {} /\ A # parts[i] /\ UNCHANGED m
          /\ parts' = [j \in 1..Len(parts) + 1 |-> IF j < i THEN parts[j] ELSE IF j = i THEN A
                       ELSE IF j = i + 1 THEN parts[i] \ A ELSE parts[j - 1]]
Step(name, A) == A /\ log' = Append(log, name) /\ UNCHANGED fault
Next == Len(log) < Depth /\ (Step("rep", Rep) \/ Step("cut", Cut))
Spec == Init /\ [][Next]_vars
Copies == \A a \in 1..n*m : Count(fault, m, a) = Count("none", 1, Cell(a))
Whole == /\ \A i \in DOMAIN parts : \A a \in parts[i] : Row(fault, parts[i], a) = Count("none", m, a)
         /\ Sum(DOMAIN parts, [i \in DOMAIN parts |-> Total(fault, i)]) = Sum(1..n*m, [a \in 1..n*m |-> Count("none", m, a)])
Tells == Copies /\ Whole

-----------------------------------------------------------------------------
\* histories for the real code: repetitions (W02), divisions (W03)
Op == IOEnv.OPS
GNext == /\ Len(log) < Depth /\ UNCHANGED <<m, parts, fault>>
         /\ IF Op = "rep"
            THEN \E c \in {RandomElement([op : {"rep"}, axis : 1..3, m : 2..4, perm : BOOLEAN, k : 1..1000])} : log' = Append(log, c)
            ELSE \E s \in {"p", "q"} : \E c \in {RandomElement([op : {"cut"}, part : 1..8, how : {"head", "tail", "half", "any", "one", "odd"}, k : 1..1000])} :
                   log' = Append(log, [op |-> "cut", s |-> s, part |-> c.part, how |-> c.how, k |-> c.k])
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars

-----------------------------------------------------------------------------
(* The relation of every result of the real classes.  "": not judged.
   Repetition: same; times: multiplied by the number of copies; rowsP/rowsQ/colsP: each copy's
   row or column; bonds: each copy has the bonds of the single one, with other ends at the same
   vectors; bondrows: per-bond values of these; tile: the field repeated; idsP/idsQ: the copies
   of the particles; covers: every cluster consists of copies of one whole cluster.          *)
Counted == {"RDF", "RDFFiniteSize", "CorrelationFunction", "BondOrder", "BondOrder_lbod", "BondOrder_obcd", "BondOrder_oocd",
            "PMFTR12", "PMFTXY", "PMFTXYT", "PMFTXYZ"}
Lists == {"nlist", "filtered_nlist", "unfiltered_nlist", "ball"}
RelRep(cls, res) ==
  CASE res = "box" -> ""
    [] cls \in Counted /\ res \in {"bin_counts", "bond_order"} -> "times"
    [] cls = "RDFFiniteSize" /\ res = "rdf" -> ""
    [] cls \in Counted -> "same"
    [] cls \in {"GaussianDensity", "GaussianDensity2D", "SphereVoxelization", "SphereVoxelization2D"} -> "tile"
    [] cls = "LocalDensity" -> "rowsQ"
    [] res \in Lists -> "bonds"
    [] cls \in {"AngularSeparationNeighbor", "LocalBondProjection"} -> "bondrows"
    [] cls \in {"AngularSeparationGlobal", "Hexatic", "HexaticWeighted"} -> "rowsP"
    [] cls = "RotationalAutocorrelation" -> (IF res = "order" THEN "same" ELSE "rowsP")
    [] cls \in {"MSD_window", "MSD_direct"} -> (IF res = "msd" THEN "same" ELSE "colsP")
    [] cls = "Interface" -> (CASE res = "point_ids" -> "idsP" [] res = "query_point_ids" -> "idsQ" [] OTHER -> "times")
    [] cls = "Cluster" /\ res = "cluster_idx" -> "covers"
    [] OTHER -> ""
(* Division of the points (s = "p") or the query points ("q"): sum, max: of the parts' values;
   rows/cols/bonds/bondrows/ids: those of the parts under the numbers of the whole.          *)
RelCut(cls, res, s) ==
  CASE cls \in Counted /\ res = "bin_counts" -> "sum"
    [] cls = "RDF" /\ res = "n_r" /\ s = "p" -> "sum"
    [] cls \in {"GaussianDensity", "GaussianDensity2D"} /\ res = "density" -> "sum"
    [] cls \in {"SphereVoxelization", "SphereVoxelization2D"} /\ res = "voxels" -> "max"
    [] cls = "LocalDensity" /\ res # "box" -> (IF s = "q" THEN "rows" ELSE "sum")
    [] cls = "StaticStructureFactorDebye" /\ res = "S_k" -> "sum"
    [] res = "filtered_nlist" -> (IF s = "q" THEN "bonds" ELSE "")
    [] res \in Lists -> "bonds"
    [] cls \in {"AngularSeparationNeighbor", "LocalBondProjection"} -> "bondrows"
    [] cls = "AngularSeparationGlobal" -> "rows"
    [] cls = "RotationalAutocorrelation" /\ res = "particle_order" -> "rows"
    [] cls \in {"MSD_window", "MSD_direct"} /\ res = "particle_msd" -> "cols"
    [] cls = "Interface" /\ res = "point_ids" -> (IF s = "p" THEN "ids" ELSE "union")
    [] cls = "Interface" /\ res = "query_point_ids" -> (IF s = "q" THEN "ids" ELSE "union")
    [] cls = "Interface" /\ res = "point_count" -> (IF s = "p" THEN "sum" ELSE "")
    [] cls = "Interface" /\ res = "query_point_count" -> (IF s = "q" THEN "sum" ELSE "")
    [] OTHER -> ""
Rel(op, cls, res, s) == IF op = "rep" THEN RelRep(cls, res) ELSE RelCut(cls, res, s)
=============================================================================
