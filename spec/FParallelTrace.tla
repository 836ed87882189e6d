---------------------------- MODULE FParallelTrace ----------------------------
(* Recorded runs of one class on one input under different thread counts, processor sets and
   repetitions.  The first event is the sequential execution (one thread on one processor, own
   process); by FParallel every other run must give the same outcome: integer results (counts,
   indices, bonds: dig is a digest of their values and shapes) identical, floating-point results
   equal up to rounding (dev: largest deviation in 10^-7 of the largest value). *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
Limit == 300
B(b, t) == IF b THEN {} ELSE {t}
Verdict(a, e) ==
  IF Len(a.r) # Len(e.r) THEN {"results missing"} ELSE
  UNION { LET x == a.r[k]
              y == e.r[k] IN
          IF x.n # y.n \/ x.exc # y.exc THEN {"exception differs: " \o x.n}
          ELSE B(x.dig = y.dig, "index, count or bond results differ: " \o x.n)
               \cup B(y.dev <= Limit, "sums differ beyond rounding: " \o x.n) : k \in DOMAIN a.r }
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(T[ep].ev) /\ line' = line + 1 /\ UNCHANGED ep
        /\ broken' = Verdict(T[ep].ev[1], T[ep].ev[line + 1])
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
