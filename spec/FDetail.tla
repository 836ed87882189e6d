------------------------------- MODULE FDetail -------------------------------
(* Detail (W05).  An analysis asked for less - fewer and wider bins, a shorter range, fewer
   neighbors, a shorter cutoff, fewer frames, directions or wave numbers - says what it says when
   asked for more, put together or left out.

   The machine: separations Seps are put into bins of a range (all integers); step by step less is
   asked for: "merge" halves the number of bins, "cut" halves the range and the number of bins,
   "few" asks for one neighbor less of the nearest.  What is told is computed from the separations
   each time; what it should be is folded (want) from what was told first.  Faulty analyses: "round" (the nearest
   bin), "upper" (bins that own their upper edge, the last one not), "cap" (separations beyond the
   range in the last bin), "all" (the nearest after the cutoff was applied to their number), "share"
   (counts divided by the number of separations in the range).                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Seps, Bins, Range, Near, Depth, Faults
Named == {IOEnv.FAULT}
MCSeps == <<0, 1, 4, 4, 7, 8, 9, 13, 15, 16, 18>>
VARIABLES bins, range, near, want, log, fault
vars == <<bins, range, near, want, log, fault>>
SepSet == 1..Len(Seps)
Bin(f, d, n, r) == IF f = "round" THEN (2 * d * n + r) \div (2 * r) ELSE IF f = "upper" THEN (IF d = 0 THEN 0 ELSE IF d >= r THEN n ELSE (d * n - 1) \div r)
                   ELSE IF f = "cap" /\ d >= r THEN n - 1 ELSE (d * n) \div r
Hist(f, n, r) == LET c(b) == Cardinality({i \in SepSet : Bin(f, Seps[i], n, r) = b})
                     tot == Cardinality({i \in SepSet : Seps[i] < r})
                 IN [b \in 1..n |-> IF f = "share" THEN (100 * c(b - 1)) \div tot ELSE c(b - 1)]
Rank(i) == Cardinality({j \in SepSet : Seps[j] < Seps[i] \/ (Seps[j] = Seps[i] /\ j < i)})
First(f, k, r) == {i \in SepSet : Rank(i) < (IF f = "all" /\ r < Range THEN k + 1 ELSE k)}
Told == [hist |-> Hist(fault, bins, range), first |-> First(fault, near, range)]
Init == /\ bins = Bins /\ range = Range /\ near = Near /\ fault \in Faults /\ log = <<>>
        /\ want = Told
Merge == /\ bins % 2 = 0 /\ bins' = bins \div 2 /\ UNCHANGED <<range, near>>
         /\ want' = [want EXCEPT !.hist = [b \in 1..bins' |-> @[2 * b - 1] + @[2 * b]]]
Cut == /\ bins % 2 = 0 /\ range % 2 = 0 /\ bins' = bins \div 2 /\ range' = range \div 2 /\ UNCHANGED near
       /\ want' = [want EXCEPT !.hist = SubSeq(@, 1, bins')]
Few == /\ near > 1 /\ near' = near - 1 /\ UNCHANGED <<bins, range>>
       /\ want' = [want EXCEPT !.first = {i \in @ : Rank(i) < near'}]
Step(name, A) == A /\ log' = Append(log, name) /\ UNCHANGED fault
Next == Len(log) < Depth /\ (Step("merge", Merge) \/ Step("cut", Cut) \/ Step("few", Few))
Spec == Init /\ [][Next]_vars
Tells == Told = want

-----------------------------------------------------------------------------
(* what can be asked of the real classes in less detail: op, axis of bins, number *)
Hists == {"RDF", "CorrelationFunction", "PMFTR12", "PMFTXY", "PMFTXYT", "PMFTXYZ", "BondOrder"}
Axes(cls) == IF cls \in {"PMFTR12", "PMFTXYT", "PMFTXYZ"} THEN 1..3 ELSE IF cls \in {"PMFTXY", "BondOrder"} THEN 1..2 ELSE {1}
Cuttable(cls) == IF cls = "PMFTXYZ" THEN 1..3 ELSE IF cls \in {"PMFTXY", "PMFTXYT"} THEN 1..2 ELSE IF cls = "BondOrder" THEN {} ELSE {1}
Asks == { [cls |-> c, op |-> "bins", ax |-> a] : c \in {"RDF", "CorrelationFunction"}, a \in {1} }
        \cup UNION { { [cls |-> c, op |-> "bins", ax |-> a] : a \in Axes(c) } : c \in Hists }
        \cup UNION { { [cls |-> c, op |-> "range", ax |-> a] : a \in Cuttable(c) } : c \in Hists }
        \cup { [cls |-> "Neighbors", op |-> o, ax |-> 0] : o \in {"fewer", "shorter", "longer r_min", "fewer and shorter", "within nearest"} }
        \cup { [cls |-> c, op |-> "shorter", ax |-> 0] : c \in {"Cluster", "Interface", "PeriodicBuffer", "FilterRAD", "FilterRADOpen", "FilterSANN", "SphereVoxelization"} }
        \cup { [cls |-> "FilterRADOpen", op |-> "closed", ax |-> 0] }
        \cup { [cls |-> "Debye", op |-> o, ax |-> 0] : o \in {"coarse", "range"} }
        \cup { [cls |-> "MSD", op |-> "frames", ax |-> 0], [cls |-> "GaussianDensity", op |-> "width", ax |-> 0] }
        \cup { [cls |-> c, op |-> "directions", ax |-> 0] : c \in {"LocalBondProjection", "AngularSeparationGlobal"} }
        \cup { [cls |-> c, op |-> "equivalents", ax |-> 0] : c \in {"LocalBondProjection", "AngularSeparationGlobal", "AngularSeparationNeighbor"} }
        \cup { [cls |-> "PMFTXYZ", op |-> "equivalents", ax |-> 0] }
GNext == /\ Len(log) < Depth /\ UNCHANGED <<bins, range, near, want, fault>>
         /\ \E a \in {RandomElement(Asks)} : \E k \in {RandomElement(0..7)} :
              log' = Append(log, [cls |-> a.cls, op |-> a.op, ax |-> a.ax, k |-> k])
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars

-----------------------------------------------------------------------------
(* The relation the result asked for in less detail has to the other; "" : not judged.
   sumA: neighbors along axis A added; second: every second value from the first; last: every
   second from the second; prefixA/middleA: the first half/the middle half along axis A; mean: the
   mean of neighbors weighted by their counts; within: the bonds in the range asked for; first:
   the nearest of every query point; atmost/atleast: no value larger/smaller; third: every third
   from the second along all axes; subset: only rows that were there; refines: parts of the parts. *)
Ax(name, a) == name \o ToString(a)
Res(name, a) == name \o "." \o ToString(a)
Rel(cls, op, a, res) ==
  CASE op = "bins" ->
         (IF res = "bin_counts" THEN Ax("sum", a)
          ELSE IF res = Res("bin_edges", a) THEN "second"
          ELSE IF res = "n_r" THEN "last"
          ELSE IF res = "correlation" THEN "mean"
          ELSE IF res \in {Res("bin_edges", x) : x \in 1..3} \cup {Res("bin_centers", x) : x \in (1..3) \ {a}} THEN "same"
          ELSE "")
    [] op = "range" /\ cls = "Debye" -> "prefix1"
    [] op = "range" ->
         LET b == IF cls \in {"RDF", "CorrelationFunction", "PMFTR12"} THEN "prefix" ELSE "middle" IN
         (IF res \in {"bin_counts", "rdf", "n_r", "correlation", "pmft"} THEN Ax(b, a)
          ELSE IF res \in {Res("bin_edges", a), Res("bin_centers", a)} THEN Ax(b, 1)
          ELSE "same")
    [] cls = "Neighbors" -> (IF op = "fewer" THEN "first" ELSE IF op = "fewer and shorter" THEN "first within" ELSE "within")
    [] cls \in {"FilterRAD", "FilterRADOpen", "FilterSANN"} /\ op = "shorter" -> "within"
    [] op = "closed" -> "subset"
    [] cls = "Cluster" -> IF res = "cluster_idx" THEN "refines" ELSE IF res = "num_clusters" THEN "atleast" ELSE ""
    [] cls = "Interface" -> IF res \in {"point_ids", "query_point_ids"} THEN "subset" ELSE "atmost"
    [] cls = "PeriodicBuffer" -> IF res = "images" THEN "subset" ELSE ""
    [] cls = "SphereVoxelization" -> "atmost"
    [] cls = "Debye" -> "second"
    [] cls = "MSD" -> "prefix1"
    [] cls = "GaussianDensity" -> "third"
    [] op = "directions" -> IF res = "bonds" THEN "same" ELSE "prefix2"
    [] op = "equivalents" ->
         (IF res = "angles" THEN "atleast" ELSE IF res \in {"projections", "normed_projections"} THEN "atmost"
          ELSE IF res = "bonds" THEN "same" ELSE IF cls = "PMFTXYZ" THEN (IF res = "bin_counts" THEN "atmost" ELSE "") ELSE "")
    [] OTHER -> ""
=============================================================================
