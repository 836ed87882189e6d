---------------------------- MODULE FFilterTrace ----------------------------
(* Recorded filter computations: e.u is the unfiltered list, e.f the filtered one. *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
F == INSTANCE FFilter WITH Vecs <- {}, Rads <- {}, MaxB <- 0, seen <- 0, open <- 0, closed <- 0, stopped <- 0, sann <- 0, sum2 <- 0, done <- 0
B == T[ep]
N(x) == Len(x.q)
Bond(x, k) == [q |-> x.q[k], p |-> x.p[k], v |-> x.v[k], w |-> x.w[k]]
D2(x, k) == Sq(x.v[k])
LenOK(x) == Len(x.p) = N(x) /\ Len(x.v) = N(x) /\ Len(x.w) = N(x) /\ Len(x.d2) = N(x)
Rows(x, i) == { k \in 1..N(x) : x.q[k] = i }
\* multiset inclusion row by row: bonds here are distinct unless the input repeats them
Mult(x, R, b) == Cardinality({ k \in R : Bond(x, k) = b })
Pick(x, i) == LET ks == SelectSeq([k \in 1..N(x) |-> k], LAMBDA k : x.q[k] = i) IN [j \in 1..Len(ks) |-> D2(x, ks[j])]
Dists(x, i) == SortSeq(Pick(x, i), <)
Qs(e) == 0..e.u.nq-1
SannUnfilled(s) == Len(s) \in F!SannSizes(s)
SannSurely(s) == F!SannSizes(s) = {Len(s)}
RadSet(e, i) == { [id |-> k, v |-> e.u.v[k], d2 |-> D2(e.u, k), R |-> e.R[e.u.p[k]+1]] : k \in Rows(e.u, i) }

ListV(e) ==
  IF ~LenOK(e.f) THEN {"array lengths"} ELSE
    If(e.f.nq = e.u.nq /\ e.f.np = e.u.np, "list sizes")
    \cup If(\A k \in 1..N(e.f)-1 : e.f.q[k] <= e.f.q[k+1], "grouped by query point")
    \cup If(\A k \in 1..N(e.f)-1 : e.f.q[k] = e.f.q[k+1] => e.f.d2[k] <= e.f.d2[k+1], "sorted by distance")
    \cup If(\A k \in 1..N(e.f) : e.f.q[k] \in Qs(e) /\ Mult(e.f, Rows(e.f, e.f.q[k]), Bond(e.f, k)) <= Mult(e.u, Rows(e.u, e.f.q[k]), Bond(e.f, k)), "kept bonds are unchanged")
    \cup If(\A k \in 1..N(e.f) : e.f.d2[k] = Sq(e.f.v[k]), "distance")
Prefix(s, n) == SubSeq(s, 1, n)
SannV(e) ==
  If(\A i \in Qs(e) : LET s == Dists(e.u, i)
                          t == Dists(e.f, i)
                      IN Len(t) \in F!SannSizes(s) /\ t = Prefix(s, Len(t)), "shell")
RadV(e) ==
  If(\A i \in Qs(e) : LET S == RadSet(e, i)
                          kept(k) == Mult(e.f, Rows(e.f, i), Bond(e.u, k.id)) >= 1
                          must == IF e.closed THEN F!ClosedMust(S) ELSE F!OpenMust(S)
                          may == IF e.closed THEN F!ClosedMay(S) ELSE F!OpenMay(S)
                      IN \A k \in S : (k \in must => kept(k)) /\ (kept(k) => k \in may), "shell")
MayBeUnfilled(e) == IF e.cls = "sann" THEN \E i \in Qs(e) : SannUnfilled(Dists(e.u, i))
                    ELSE e.closed /\ \E i \in Qs(e) : F!ClosedFull(RadSet(e, i))
SurelyUnfilled(e) == IF e.cls = "sann" THEN \E i \in Qs(e) : SannSurely(Dists(e.u, i))
                     ELSE e.closed /\ \E i \in Qs(e) : F!ClosedSurelyFull(RadSet(e, i))
Verdict(e) ==
  IF e.cls = "bad" THEN If(e.exc # "", "accepted: " \o e.why)
  ELSE IF e.exc # "" THEN If(e.exc = "RuntimeError" /\ ~e.allow /\ MayBeUnfilled(e), "unexpected exception " \o e.exc)
  ELSE IF ~e.allow /\ SurelyUnfilled(e) THEN {"incomplete shell not reported"}
  ELSE IF ~LenOK(e.u) THEN {"unfiltered array lengths"}
  ELSE If(e.given => e.same, "unfiltered list is the given list")
       \cup ListV(e) \cup (IF e.cls = "sann" THEN SannV(e) ELSE RadV(e))
Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
