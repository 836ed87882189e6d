----------------------------- MODULE FArgsTrace ------------------------------
(* Recorded calls (A01) and constructions (A02) of the real classes and whether they raised.
   A01: cls, arg, nl, exc; A02: cls, o, exc.  exc = "" accepted, otherwise the exception; running
   out of memory or failing an internal assertion of the machine is not a rejection.            *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
G == INSTANCE FArgs WITH MaxN <- 1, Faults <- {}, size <- 0, todo <- 0, phase <- 0, reads <- 0, fault <- 0
Refused(e) == e.exc \notin {"", "MemoryError", "SystemError"}
Verdict(e) ==
  IF e.what = "call"
  THEN (IF G!Fits(e.cls, e.arg, e.nl) /\ e.exc # "" THEN {"arguments that fit are rejected"} ELSE {})
       \cup (IF G!Misfits(e.cls, e.arg, e.nl) /\ ~Refused(e) THEN {"arguments that do not fit are accepted"} ELSE {})
  ELSE LET d == G!Domain(e.cls, e.o) IN
       (IF d = "in" /\ e.exc # "" THEN {"settings within their domain are rejected"} ELSE {})
       \cup (IF d = "out" /\ ~Refused(e) THEN {"settings outside their domain are accepted"} ELSE {})
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
