--------------------------- MODULE FSymmetryTrace ----------------------------
(* Recorded analyses of re-described systems: every event is one further re-description c (did:
   whether it was possible for this input) followed by a compute; r holds for every result the
   relations rel it was found to have to the result for the original description.            *)
EXTENDS TraceBase
VARIABLES ep, line, broken, ops
vars == <<ep, line, broken, ops>>
G == INSTANCE FSymmetry WITH L <- 1, Sites <- <<0>>, Depth <- 0, Faults <- {}, pos <- 0, who <- 0, dir <- 0, log <- 0, fault <- 0
In(x, S) == \E i \in DOMAIN S : S[i] = x
Verdict(cls, e, o) ==
  (IF e.exc = "" THEN {} ELSE {"a description is rejected: " \o e.exc})
  \cup UNION {LET w == G!Rel(cls, e.r[k].n, o) IN
              IF w = "" \/ In(w, e.r[k].rel) THEN {} ELSE {"depends on the description: " \o e.r[k].n} : k \in DOMAIN e.r}
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {} /\ ops = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ LET e == T[ep].ev[line + 1] IN
             /\ ops' = IF e.did THEN ops \cup {e.c.op} ELSE ops
             /\ broken' = Verdict(T[ep].cls, e, ops')
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
