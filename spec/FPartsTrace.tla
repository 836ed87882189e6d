------------------------------ MODULE FPartsTrace -----------------------------
(* Recorded analyses of repeated or divided systems: every event is one further repetition (W02)
   or division (W03) c, followed by computes; r holds for every result the relations rel it was
   found to have to the result of the system the history began with.                         *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
G == INSTANCE FParts WITH L <- 1, Sites <- <<0>>, MaxM <- 1, Depth <- 0, Faults <- {}, m <- 0, parts <- 0, log <- 0, fault <- 0
In(x, S) == \E i \in DOMAIN S : S[i] = x
Verdict(cls, e) ==
  (IF e.exc = "" THEN {} ELSE {"rejected: " \o e.exc})
  \cup UNION {LET w == G!Rel(e.c.op, cls, e.r[k].n, e.s) IN
              IF w = "" \/ In(w, e.r[k].rel) THEN {} ELSE {e.r[k].n \o " is not " \o w} : k \in DOMAIN e.r}
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep].cls, T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
