--------------------------------- MODULE FRepr --------------------------------
(* G02: the representation of an object is an expression for an object like it.

   An object has settings; Print writes some of them, Read makes an object of the settings written, the
   others having their defaults.  Settings change by assignment between prints.  A faulty Print
   omits a setting ("omit") or writes what it was when the object was made ("made").             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Names, Values, Depth, Faults
Named == {IOEnv.FAULT}
VARIABLES obj, made, meant, log, fault
vars == <<obj, made, meant, log, fault>>
Default == [n \in Names |-> 0]
Written(o, m, f) == LET src == IF f = "made" THEN m ELSE o IN
  [n \in (IF f = "omit" THEN Names \ {CHOOSE n \in Names : TRUE} ELSE Names) |-> src[n]]
Read(w) == [n \in Names |-> IF n \in DOMAIN w THEN w[n] ELSE Default[n]]
Init == obj \in [Names -> Values] /\ made = obj /\ meant = obj /\ log = <<>> /\ fault \in Faults
Assign == \E n \in Names, v \in Values : obj' = [obj EXCEPT ![n] = v] /\ meant' = obj' /\ UNCHANGED made
Copy == obj' = Read(Written(obj, made, fault)) /\ made' = obj' /\ UNCHANGED meant
Step(name, A) == A /\ log' = Append(log, name) /\ UNCHANGED fault
Next == Len(log) < Depth /\ (Step("assign", Assign) \/ Step("copy", Copy))
Spec == Init /\ [][Next]_vars
Alike == obj = meant
-----------------------------------------------------------------------------
Kinds == {"RDF", "RDF", "CorrelationFunction", "GaussianDensity", "SphereVoxelization", "LocalDensity", "PMFTR12", "PMFTXYT", "PMFTXY", "PMFTXYZ",
          "BondOrder", "Hexatic", "Cubatic", "RotationalAutocorrelation", "MSD", "StaticStructureFactorDebye", "DiffractionPattern", "Box",
          "Cluster", "ClusterProperties", "Interface", "PeriodicBuffer", "AngularSeparationGlobal", "AngularSeparationNeighbor", "LocalBondProjection"}
GNext == /\ Len(log) < Depth /\ UNCHANGED <<obj, made, meant, fault>>
         /\ log' = (IF log = <<>> THEN <<[what |-> RandomElement(Kinds), k |-> RandomElement(1..1000)]>> ELSE Append(log, [what |-> RandomElement({"assign", "copy", "copy", "compute"})]))
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars
MCNames == {"a", "b"}
=============================================================================
