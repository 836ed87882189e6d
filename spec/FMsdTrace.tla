----------------------------- MODULE FMsdTrace -----------------------------
EXTENDS TraceBase, FMsdOps
VARIABLES ep, line, broken, acc      \* acc: the particle trajectories since the last reset
vars == <<ep, line, broken, acc>>
B == T[ep]
Traj(e, i) == LET x == [t \in 1..Len(e.x) |-> e.x[t][i]] IN IF e.im = <<>> THEN x ELSE Unwrapped(e.box, x, [t \in 1..Len(e.x) |-> e.im[t][i]])
Columns(e) == [i \in 1..e.n |-> TLCEval(Traj(e, i))]
After(e) == IF e.exc # "" \/ e.bad THEN acc ELSE IF e.reset THEN Columns(e) ELSE acc \o Columns(e)
Num(tr, m) == IF B.mode = "window" THEN WindowSum(tr, m) ELSE DirectSum(tr, m)
Den(N, m) == IF B.mode = "window" THEN N - m ELSE 1
MaxSq(tr) == LET RECURSIVE S(_) S(t) == IF t = 0 THEN 0 ELSE Max2(Sq(tr[t]), S(t-1)) IN S(Len(tr))
\* values are recorded in units of 1/64; the FFT of single precision numbers is good to 2^-18 of the squares
Tol(tr) == IF B.mode = "window" THEN 1 + (Len(tr) * MaxSq(tr)) \div 4096 ELSE 1 + MaxSq(tr) \div 4096
V(e, a) ==
  LET n == Len(a)  N == IF n = 0 THEN 0 ELSE Len(a[1]) IN
  IF e.shape # <<N, n>> \/ Len(e.msd) # N THEN {"shape of the results"} ELSE
  LET num == TLCEval([i \in 1..n |-> TLCEval([m \in 0..N-1 |-> Num(a[i], m)])])
      tol == TLCEval([i \in 1..n |-> Tol(a[i])])
      tot == SumSeq(tol)
  IN If(\A i \in 1..n, m \in 0..N-1 : e.pm[m*n + i] # NONINT /\ Abs(e.pm[m*n + i]*Den(N, m) - 64*num[i][m]) <= tol[i]*Den(N, m), "particle_msd")
     \cup If(\A m \in 0..N-1 : e.msd[m+1] # NONINT /\ Abs(e.msd[m+1]*n - RoundDiv(64*SumSeq([i \in 1..n |-> num[i][m]]), Den(N, m))) <= tot + n, "msd")
Verdict(e) == IF e.exc # "" THEN If(e.bad, "unexpected exception " \o e.exc) ELSE IF e.bad THEN {"inconsistent input accepted"} ELSE V(e, After(e))
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {} /\ acc = <<>>
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ acc' = TLCEval(After(B.ev[line + 1]))
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
