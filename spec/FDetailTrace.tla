---------------------------- MODULE FDetailTrace -----------------------------
(* Recorded pairs of results: event a was asked in full and with less; r holds for every result the
   relations found between the two.                                                            *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
G == INSTANCE FDetail WITH Seps <- <<>>, Bins <- 2, Range <- 2, Near <- 1, Depth <- 0, Faults <- {}, bins <- 0, range <- 0, near <- 0, want <- 0, log <- 0, fault <- 0
In(x, S) == \E i \in DOMAIN S : S[i] = x
Verdict(e) ==
  If(e.exc = "", "less detail is rejected: " \o e.exc)
  \cup UNION { LET w == G!Rel(e.a.cls, e.a.op, e.a.ax, e.r[k].n) IN
               If(w = "" \/ In(w, e.r[k].rel), e.a.cls \o " in less detail (" \o e.a.op \o ") says something else: " \o e.r[k].n) : k \in DOMAIN e.r }
  \cup If(e.exc # "" \/ \E k \in DOMAIN e.r : G!Rel(e.a.cls, e.a.op, e.a.ax, e.r[k].n) # "", "nothing judged")
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
