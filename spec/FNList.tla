------------------------------- MODULE FNList -------------------------------
(* NeighborList (L01-L03): a list is [nq, np, b], b a sequence of bonds
   [q, p, v, w] (indices from 0, v an integer vector, w an integer weight); the distance is
   the length of v.  Radii are doubled integers. *)
EXTENDS Lat, TLC, Json

D2(x) == Sq(x.v)
Grouped(b) == \A k \in 1..Len(b)-1 : b[k].q <= b[k+1].q
WF(l) == /\ Grouped(l.b)
         /\ \A k \in 1..Len(l.b) : l.b[k].q \in 0..l.nq-1 /\ l.b[k].p \in 0..l.np-1
\* derived arrays
Rows(l, i) == { k \in 1..Len(l.b) : l.b[k].q = i }
Count(l, i) == Cardinality(Rows(l, i))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Segment(l, i) == MinOf(Rows(l, i)) - 1                       \* for i with bonds
First(l, i) == LET S == { k \in 1..Len(l.b) : l.b[k].q >= i } IN IF S = {} THEN Len(l.b) ELSE MinOf(S) - 1
\* operations
Pick(b, ok(_)) == LET RECURSIVE F(_)
                      F(k) == IF k > Len(b) THEN <<>> ELSE (IF ok(k) THEN <<b[k]>> ELSE <<>>) \o F(k+1)
                  IN F(1)
Filter(l, m) == [l EXCEPT !.b = Pick(l.b, LAMBDA k : m[k])]
FilterR(l, rmax, rmin) == [l EXCEPT !.b = Pick(l.b, LAMBDA k : 4*D2(l.b[k]) >= rmin*rmin /\ 4*D2(l.b[k]) < rmax*rmax)]
Permuted(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) :
      Cardinality({ i \in 1..Len(a) : a[i] = a[k] }) = Cardinality({ i \in 1..Len(b) : b[i] = a[k] })
Ordered(b, byd) == \A k \in 1..Len(b)-1 : \/ b[k].q < b[k+1].q
                                          \/ b[k].q = b[k+1].q /\ (IF byd THEN D2(b[k]) <= D2(b[k+1]) ELSE b[k].p <= b[k+1].p)
IsSort(l, m, byd) == m.nq = l.nq /\ m.np = l.np /\ Permuted(l.b, m.b) /\ Ordered(m.b, byd)
\* all pairs of a system: lexicographic, wrapped vectors from query point to point
PairsOf(Q, P, excl, V(_, _)) ==
  LET n == Len(P)
      Idx == Pick([k \in 1..Len(Q)*n |-> <<(k-1) \div n, (k-1) % n>>],
                  LAMBDA k : ~(excl /\ (k-1) \div n = (k-1) % n))
  IN [nq |-> Len(Q), np |-> n,
      b |-> [k \in 1..Len(Idx) |-> [q |-> Idx[k][1], p |-> Idx[k][2], w |-> 1,
                                    v |-> V(P[Idx[k][2]+1], Q[Idx[k][1]+1])]]]
AllPairs(box, Q, P, excl) == PairsOf(Q, P, excl, LAMBDA pp, qq : Wrap(box, Sub(pp, qq)))
\* the pinned tree orients them from point to query point (known finding; an existing test pins it)
AllPairsRev(box, Q, P, excl) == PairsOf(Q, P, excl, LAMBDA pp, qq : Wrap(box, Sub(qq, pp)))
Bad(nq, np, b) == ~WF([nq |-> nq, np |-> np, b |-> b])
------------------------------------------------------------------------------
(* Any number of handles; every operation acts on one handle and leaves the others alone. *)
CONSTANTS Start, Masks, Radii, MaxH, Depth
VARIABLES hs, h
vars == <<hs, h>>
Put(i, l) == hs' = [hs EXCEPT ![i] = l]
Fits(m, l) == Len(m) = Len(l.b)
MCInit == hs = <<Start>> /\ h = <<>>
\* the unique order the abstract sort leaves when no two bonds tie
RECURSIVE Insert(_, _, _)
Insert(x, s, byd) == IF s = <<>> THEN <<x>>
                     ELSE LET k(y) == <<y.q, IF byd THEN D2(y) ELSE y.p>>
                              le == k(x)[1] < k(s[1])[1] \/ (k(x)[1] = k(s[1])[1] /\ k(x)[2] <= k(s[1])[2])
                          IN IF le THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s), byd)
RECURSIVE SortB(_, _)
SortB(s, byd) == IF s = <<>> THEN <<>> ELSE Insert(s[1], SortB(Tail(s), byd), byd)
Sorted(l, byd) == [l EXCEPT !.b = SortB(l.b, byd)]
MCNext == /\ \/ \E i \in 1..Len(hs) : \/ \E m \in Masks : Fits(m, hs[i]) /\ Put(i, Filter(hs[i], m))
                                      \/ \E r \in Radii : Put(i, FilterR(hs[i], r[1], r[2]))
                                      \/ \E d \in BOOLEAN : Put(i, Sorted(hs[i], d))
                                      \/ Len(hs) < MaxH /\ hs' = Append(hs, hs[i])
                                      \/ \E j \in 1..Len(hs) : Put(j, hs[i])
          /\ UNCHANGED h
MCSpec == MCInit /\ [][MCNext]_vars
MCInv == \A i \in 1..Len(hs) : LET l == hs[i] IN
   /\ WF(l)
   /\ SumSeq([k \in 1..l.nq |-> Count(l, k-1)]) = Len(l.b)
   /\ \A k \in 0..l.nq-1 : Count(l, k) > 0 => Segment(l, k) = First(l, k)
   /\ \A k \in 0..l.nq-1 : First(l, k+1) >= First(l, k) /\ (First(l, k+1) - First(l, k) = Count(l, k))
   /\ First(l, l.nq) = Len(l.b)
   /\ \A d \in BOOLEAN : IsSort(l, Sorted(l, d), d)
   /\ \A r \in Radii : FilterR(Sorted(l, TRUE), r[1], r[2]) = Sorted(FilterR(l, r[1], r[2]), TRUE)
\* histories for replay on the real class
Cmd == { [op |-> o, i |-> i] : o \in {"filter", "filterr", "sort", "sortd", "copy", "badmask", "badr", "derive", "filter0", "filter1"}, i \in 1..MaxH }
  \cup { [op |-> "copyinto", i |-> i, j |-> j] : i \in 1..MaxH, j \in 1..MaxH }
  \cup { [op |-> o, i |-> 0] : o \in {"arrays", "pairs", "query", "badnew"} }
GenInit == hs = <<>> /\ h = <<>>
Makes(o) == o \in {"arrays", "pairs", "query", "copy"}
GenNext == \E c \in Cmd :
   /\ Len(h) < Depth /\ c.i <= Len(hs) /\ (c.op = "copyinto" => c.j <= Len(hs))
   /\ (Makes(c.op) => Len(hs) < MaxH) /\ (hs = <<>> => Makes(c.op))
   /\ h' = Append(h, c) /\ hs' = IF Makes(c.op) THEN Append(hs, c.op) ELSE hs
   /\ (Len(h') = Depth => PrintT(<<"BEH", ToJson(h')>>))
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================
