--------------------------- MODULE FNeighborsTrace ---------------------------
(* Recorded queries of the real engines against FNeighbors. *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
N == INSTANCE FNeighbors WITH Box0 <- 0, Pts <- <<>>, QSets <- <<>>, ArgSets <- <<>>, MaxRes <- 0,
                              Depth <- 0, res <- <<>>, h <- <<>>
B == T[ep]
Q(e) == B.qs[e.q]
\* rows: sequence of <<i, j, d2>> (1-based); those of query point i, in order
RowsOf(rows, i) == SelectSeq(rows, LAMBDA r : r[1] = i)
Pairs(rows) == [k \in 1..Len(rows) |-> <<rows[k][2], rows[k][3]>>]
NoDup(s) == Cardinality(SeqSet(s)) = Len(s)
IdxOK(e, rows) == \A k \in 1..Len(rows) : rows[k][1] \in 1..Len(Q(e)) /\ rows[k][2] \in 1..Len(B.p)

(* e.eng: "wrap" engines measure the wrapped separation, "min" ones search the images, and
   "near" ones only guarantee distances below half the plane spacing (4 d2 < e.far) *)
AnswerOK(e, rows, i) ==
  LET got == Pairs(RowsOf(rows, i))
      S == IF e.eng = "min" THEN N!SeenMin(B.box, B.p, Q(e)[i], i, e.args.excl)
                            ELSE N!Seen(B.box, B.p, Q(e)[i], i, e.args.excl) IN
  IF e.mode = "ball" THEN NoDup(got) /\ N!BallOK(B.box, S, e.args, SeqSet(got))
  ELSE IF e.eng = "near" THEN N!NearestFarOK(B.box, S, e.args, got, e.far)
  ELSE N!NearestOK(B.box, S, e.args, got)
\* an abandoned iteration: part of the answer, in whole query points up to the last
PartOK(e, rows) ==
  LET last == IF rows = <<>> THEN 0 ELSE rows[Len(rows)][1] IN
  /\ NoDup(rows)
  /\ \A k \in 1..Len(rows)-1 : rows[k][1] <= rows[k+1][1]
  /\ \A i \in 1..last-1 : AnswerOK(e, rows, i)
  /\ (last > 0 => LET got == Pairs(RowsOf(rows, last))
                      S == N!Seen(B.box, B.p, Q(e)[last], last, e.args.excl) IN
                  SeqSet(got) \subseteq N!MayIn(B.box, S, e.args))

\* integer coordinates of a lattice vector (exact division bottom up)
LatCoord(w) == LET n3 == IF B.box.d = 2 THEN 0 ELSE w[3] \div B.box.L[3]
                   n2 == (w[2] - n3*B.box.cy) \div B.box.L[2]
               IN <<(w[1] - n2*B.box.bx - n3*B.box.cx) \div B.box.L[1], n2, n3>>

SetV(e, rows, name) ==
  IF ~IdxOK(e, rows) THEN {name \o ": index out of range"}
  ELSE If(\A i \in 1..Len(Q(e)) : AnswerOK(e, rows, i), name \o ": bonds")

\* the documented order of a NeighborList and the agreement of its arrays
ListV(e) ==
  LET nl == e.nl  n == Len(nl.rows)  ok == Len(nl.v) = n /\ Len(nl.w) = n IN
  If(ok, "array lengths")
  \cup If(nl.nq = Len(Q(e)) /\ nl.np = Len(B.p), "sizes")
  \cup (IF ~ok \/ ~IdxOK(e, nl.rows) THEN {"list: index out of range"} ELSE
     If(\A k \in 1..n-1 : nl.rows[k][1] <= nl.rows[k+1][1], "grouped by query point")
     \cup If(\A k \in 1..n-1 : nl.rows[k][1] = nl.rows[k+1][1] =>
              IF nl.sorted THEN nl.rows[k][3] <= nl.rows[k+1][3] ELSE nl.rows[k][2] < nl.rows[k+1][2], "order within query point")
     \cup If(\A k \in 1..n : nl.w[k] = 1, "unit weight")
     \cup If(\A k \in 1..n : Sq(nl.v[k]) = nl.rows[k][3], "distance is vector length")
     \cup If(\A k \in 1..n :
          LET w == Sub(nl.v[k], Sub(B.p[nl.rows[k][2]], Q(e)[nl.rows[k][1]])) IN Lattice(B.box, LatCoord(w)) = w,
          "vector points from query point to point")
     \cup If(~e.hasit \/ ( /\ SeqSet(e.it) = SeqSet(nl.rows) /\ Len(e.it) = n), "iteration and list agree"))

Verdict(e) ==
  IF e.a = "error" THEN If(e.exc # "", "accepted: " \o e.why)
  ELSE IF e.exc # "" THEN {"unexpected exception"}
  ELSE IF e.a = "count" THEN
     LET S(i) == N!Seen(B.box, B.p, Q(e)[i], i, e.args.excl)
         Cap(c) == IF e.mode = "nearest" /\ c > e.args.k THEN e.args.k ELSE c IN
     If(/\ e.n >= SumSeq([i \in 1..Len(Q(e)) |-> Cap(Cardinality(N!MustIn(B.box, S(i), e.args)))])
        /\ e.n <= SumSeq([i \in 1..Len(Q(e)) |-> Cap(Cardinality(N!MayIn(B.box, S(i), e.args)))]),
        "number of bonds used by a compute")
  ELSE IF e.a = "part" THEN If(IdxOK(e, e.it) /\ PartOK(e, e.it), "partial iteration")
  ELSE (IF e.hasit THEN SetV(e, e.it, "iteration") ELSE {})
       \cup (IF e.hasnl THEN SetV(e, e.nl.rows, "list") ELSE {})
       \cup (IF e.hasnl /\ B.forms THEN ListV(e) ELSE {})

Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
