------------------------------- MODULE FUnits --------------------------------
(* Units of length (W04).  Nothing freud computes has a length of its own: told in another unit
   of length (every length handed over multiplied by the same factor), a system has the same
   neighbors, clusters, shells, orders and counts, and every result that is a length, an area,
   a volume, a density or a wave number is multiplied by the power of the factor it should be.

   The machine: particles on a ring of L sites are told in a unit u; an analysis is told the
   cutoff in the same unit and gives the number of neighbors of every particle (no length), the
   mean square separation of neighbors (two lengths) and the density (one inverse length, as a
   numerator and a denominator).  Between analyses the unit changes.  Faulty analyses: "cutoff"
   (a cutoff of its own), "near" (particles closer than one of its own lengths are the same),
   "grid" (separations in whole numbers of its own length), "volume" (density of the first unit). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS L, Sites, Cut, Depth, Faults
Named == {IOEnv.FAULT}
MCSites == <<0, 1, 3, 6>>
VARIABLES unit, log, fault
vars == <<unit, log, fault>>
n == Len(Sites)
Units == {1, 2, 4, 8}
Own == 2                        \* a length some faulty analysis brings along
Abs1(x) == IF x < 0 THEN -x ELSE x
Wrapped(d, l) == LET m == d % l IN IF 2 * m >= l THEN l - m ELSE m
Sep(f, u, i, j) == LET s == Wrapped(u * (Sites[i] - Sites[j]), u * L) IN IF f = "grid" THEN (s \div Own) * Own ELSE s
Near(f, u, i, j) == /\ i # j
                    /\ Sep(f, u, i, j) <= (IF f = "cutoff" THEN 4 * Cut ELSE u * Cut)
                    /\ (f = "near" => Sep(f, u, i, j) > Own)
Bonds(f, u) == {x \in (1..n) \X (1..n) : Near(f, u, x[1], x[2])}
Count(f, u) == [i \in 1..n |-> Cardinality({j \in 1..n : Near(f, u, i, j)})]
RECURSIVE SumSq(_, _, _)
SumSq(f, u, B) == IF B = {} THEN 0 ELSE LET x == CHOOSE x \in B : TRUE IN Sep(f, u, x[1], x[2]) * Sep(f, u, x[1], x[2]) + SumSq(f, u, B \ {x})
Length(f, u) == IF f = "volume" /\ log # <<>> THEN L * log[1] ELSE u * L

Init == unit \in Units /\ log = <<>> /\ fault \in Faults
Next == Len(log) < Depth /\ \E u \in Units \ {unit} : unit' = u /\ log' = Append(log, unit) /\ UNCHANGED fault
Spec == Init /\ [][Next]_vars
\* in terms of what is said in the unit of a step before: exponents 0, 2 and -1
Tells == \A k \in 1..Len(log) : LET v == log[k] IN
            /\ Count(fault, unit) = Count(fault, v)
            /\ SumSq(fault, unit, Bonds(fault, unit)) * v * v = SumSq(fault, v, Bonds(fault, v)) * unit * unit
            /\ Length(fault, unit) * v = (v * L) * unit

-----------------------------------------------------------------------------
\* units for the real code, as powers of two of the unit the system was made in
GNext == /\ Len(log) < Depth /\ UNCHANGED <<unit, fault>>
         /\ \E j \in {RandomElement(1..2)} : \E k \in {RandomElement(IF j = 1 THEN {-12, -11, -10, 12} ELSE (-12..12) \ {0})} : log' = Append(log, k)
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars

-----------------------------------------------------------------------------
(* the exponent of length of every result of the real classes; d: number of dimensions *)
None == 99                      \* not judged
Edges(cls) == IF cls \in {"RDF", "RDFFiniteSize", "CorrelationFunction", "PMFTXY", "PMFTXYZ"} THEN <<1, 1, 1>>
              ELSE IF cls = "PMFTXYT" THEN <<1, 1, 0>> ELSE IF cls = "PMFTR12" THEN <<1, 0, 0>> ELSE <<0, 0, 0>>
Exponent(cls, res, d) ==
  CASE res \in {"bin_edges.1", "bin_centers.1", "bounds.1"} -> Edges(cls)[1]
    [] res \in {"bin_edges.2", "bin_centers.2", "bounds.2"} -> Edges(cls)[2]
    [] res \in {"bin_edges.3", "bin_centers.3", "bounds.3"} -> Edges(cls)[3]
    [] res \in {"box lengths", "box vectors", "wrapped", "unwrapped", "absolute", "vectors", "distances", "lengths",
                "points", "centers", "centers_of_mass", "radii_of_gyration", "projections", "buffer_points", "center_of_mass",
                "centered", "plane distances", "r_max", "r_min", "sigma", "diameter"} -> 1
    [] res \in {"gyrations", "inertia_tensors", "msd", "particle_msd"} -> 2
    [] res \in {"k_values", "k_vectors", "min_valid_k", "k_bounds", "inverse lengths"} -> -1
    [] res = "volume" -> d
    [] res = "density" -> -d
    [] OTHER -> 0
=============================================================================
