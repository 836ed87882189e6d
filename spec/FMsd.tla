-------------------------------- MODULE FMsd --------------------------------
(* Mean squared displacement (M01).

   Design model: particles move frame by frame; the object keeps, per particle, what the
   two-term algorithm needs (sums of squares with the ends peeled off one by one, and the
   autocorrelation).  What it gives for every lag must be the windowed mean by definition, and
   translating or mirroring the whole trajectory must not matter.  Accumulation: a list of
   particle columns, emptied by a reset. *)
EXTENDS FMsdOps
CONSTANTS Steps, MaxLen, Shift
VARIABLES tr, cols, last
vars == <<tr, cols, last>>
\* S1 of the algorithm for lag m, times (N - m): Q - sum of the peeled ends
Sum2(x) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Sq(x[i]) + S(i-1) IN S(Len(x))
Peel(x, m) == LET N == Len(x)  RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE Sq(x[j]) + Sq(x[N + 1 - j]) + S(j-1) IN 2*Sum2(x) - S(m)
Corr(x, m) == LET RECURSIVE S(_) S(s) == IF s = 0 THEN 0 ELSE Dot(x[s], x[s+m]) + S(s-1) IN S(Len(x) - m)
Algorithm(x, m) == Peel(x, m) - 2*Corr(x, m)
Init == tr = << Zero >> /\ cols = <<>> /\ last = <<>>
Move(d) == Len(tr) < MaxLen /\ tr' = Append(tr, Add(tr[Len(tr)], d)) /\ UNCHANGED <<cols, last>>
Column(x) == [m \in 0..Len(x)-1 |-> WindowSum(x, m)]
Compute(reset) == /\ Len(tr) = MaxLen
                  /\ cols' = IF reset THEN <<Column(tr)>> ELSE IF Len(cols) < 2 THEN Append(cols, Column(tr)) ELSE cols
                  /\ last' = IF reset THEN <<tr>> ELSE IF Len(cols) < 2 THEN Append(last, tr) ELSE last
                  /\ tr' = <<Zero>>
Next == (\E d \in Steps : Move(d)) \/ (\E r \in BOOLEAN : Compute(r))
Spec == Init /\ [][Next]_vars
Inv == /\ \A m \in 0..Len(tr)-1 :
            LET w == WindowSum(tr, m) IN
            /\ Algorithm(tr, m) = w
            /\ WindowSum([t \in 1..Len(tr) |-> Add(tr[t], Shift)], m) = w
            /\ WindowSum([t \in 1..Len(tr) |-> tr[Len(tr)+1-t]], m) = w
       /\ WindowSum(tr, 0) = 0
       /\ Len(cols) = Len(last) /\ \A i \in 1..Len(cols) : cols[i] = Column(last[i])
Constraint == Len(cols) <= 1
=============================================================================
