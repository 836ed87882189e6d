------------------------------- MODULE FMsdOps -------------------------------
(* Mean squared displacement (M01), exactly on integer positions.  A trajectory is a sequence of
   positions, index 1 the first frame. *)
EXTENDS Lat, TLC
RoundDiv(a, b) == (2*a + b) \div (2*b)
SqD(tr, s, t) == Sq(Sub(tr[t], tr[s]))
DirectSum(tr, m) == SqD(tr, 1, 1 + m)
\* the sum over all windows of m frames; the mean divides by Len(tr) - m
WindowSum(tr, m) == LET RECURSIVE S(_) S(s) == IF s = 0 THEN 0 ELSE SqD(tr, s, s + m) + S(s-1) IN S(Len(tr) - m)
Unwrapped(b, tr, im) == [t \in 1..Len(tr) |-> Add(tr[t], Lattice(b, im[t]))]
=============================================================================
