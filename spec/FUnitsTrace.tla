----------------------------- MODULE FUnitsTrace -----------------------------
(* Recorded analyses of one system told in several units of length: every event says, for every
   result, which exponents of the factor fit what was found (fits).                            *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
G == INSTANCE FUnits WITH L <- 1, Sites <- <<0>>, Cut <- 1, Depth <- 0, Faults <- {}, unit <- 0, log <- 0, fault <- 0
In(x, S) == \E i \in DOMAIN S : S[i] = x
Verdict(h, e) ==
  If(e.exc = "", "another unit of length is rejected: " \o e.exc)
  \cup UNION { LET w == G!Exponent(h.cls, e.r[k].n, h.d) IN
               If(w = G!None \/ In(w, e.r[k].fits), "depends on the unit of length: " \o e.r[k].n) : k \in DOMAIN e.r }
  \cup If(e.exc # "" \/ Len(e.r) > 0, "no results")
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep], T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
