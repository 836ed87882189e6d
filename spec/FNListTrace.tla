----------------------------- MODULE FNListTrace -----------------------------
(* Recorded NeighborList histories.  Every event carries the dump of all handles after it
   (e.post); the state before is the previous event's.  e.made is the handle it made. *)
EXTENDS TraceBase
VARIABLES ep, line, broken
vars == <<ep, line, broken>>
N == INSTANCE FNList WITH Start <- 0, Masks <- {}, Radii <- {}, MaxH <- 0, Depth <- 0, hs <- 0, h <- 0
B == T[ep]
\* a dump: parallel arrays read back from the object
Bonds(x) == [k \in 1..Len(x.q) |-> [q |-> x.q[k], p |-> x.p[k], v |-> x.v[k], w |-> x.w[k]]]
L(x) == [nq |-> x.nq, np |-> x.np, b |-> Bonds(x)]
LenOK(x) == LET n == Len(x.q) IN /\ Len(x.p) = n /\ Len(x.v) = n /\ Len(x.w) = n /\ Len(x.d2) = n
                                 /\ x.n = n /\ x.colsOK
                                 /\ Len(x.seg) = x.nq /\ Len(x.cnt) = x.nq /\ Len(x.ffi) = x.nq + 1
\* L01: one consistent, grouped list
ConsV(x) ==
  IF ~LenOK(x) THEN {"array lengths"} ELSE
  If(N!Grouped(Bonds(x)), "grouped") \cup If(N!WF(L(x)), "index in range")
  \cup If(\A k \in 1..Len(x.q) : x.d2[k] = Sq(x.v[k]), "distance is vector length")
  \cup If(\A i \in 0..x.nq-1 : x.cnt[i+1] = N!Count(L(x), i), "neighbor_counts")
  \cup If(\A i \in 0..x.nq-1 : N!Count(L(x), i) > 0 => x.seg[i+1] = N!Segment(L(x), i), "segments")
  \cup If(\A i \in 0..x.nq : x.ffi[i+1] = N!First(L(x), i), "find_first_index")
Given(e) == [nq |-> e.nq, np |-> e.np, b |-> [k \in 1..Len(e.q) |-> [q |-> e.q[k], p |-> e.p[k], v |-> e.v[k], w |-> e.w[k]]]]

PairsOK(e, l) == \/ l = N!AllPairs(B.box, e.qp, e.pp, e.excl)
                 \/ (~B.strict) /\ l = N!AllPairsRev(B.box, e.qp, e.pp, e.excl)
Effect(e, pre, post) ==
  LET same == Len(post) = Len(pre) /\ \A i \in 1..Len(pre) : post[i] = pre[i]
      others(j) == Len(post) = Len(pre) /\ \A i \in 1..Len(pre) : i # j => post[i] = pre[i]
      grown == Len(post) = Len(pre) + 1 /\ \A i \in 1..Len(pre) : post[i] = pre[i]
  IN
  CASE e.op = "arrays" -> If(grown, "new handle") \cup If(grown => L(post[Len(post)]) = Given(e), "from_arrays content")
    [] e.op = "pairs" -> If(grown, "new handle") \cup If(grown => PairsOK(e, L(post[Len(post)])), "all_pairs content")
    [] e.op = "query" -> If(grown, "new handle")
    [] e.op = "copy" -> If(grown, "new handle") \cup If(grown => post[Len(post)] = pre[e.i], "copy content")
    [] e.op = "copyinto" -> If(others(e.j), "other handles") \cup If(Len(post) = Len(pre) => post[e.j] = pre[e.i], "copy content")
    [] e.op = "filter" -> If(others(e.i), "other handles") \cup If(L(post[e.i]) = N!Filter(L(pre[e.i]), e.mask), "filter") \cup If(e.ret, "returns itself")
    [] e.op = "filterr" -> If(others(e.i), "other handles") \cup If(L(post[e.i]) = N!FilterR(L(pre[e.i]), e.rmax, e.rmin), "filter_r") \cup If(e.ret, "returns itself")
    [] e.op = "sort" -> If(others(e.i), "other handles") \cup If(N!IsSort(L(pre[e.i]), L(post[e.i]), e.byd), "sort") \cup If(e.ret, "returns itself")
    [] e.op \in {"badmask", "badr", "badnew"} -> If(e.exc # "", "accepted: " \o e.why) \cup If(same, "changed by a rejected call")
    [] e.op = "read" -> If(same, "changed by reading")
    [] OTHER -> {"unknown event"}

\* a long list told by its runs <<query point, length>>
RECURSIVE Before(_, _)
Before(rs, k) == IF k = 0 THEN 0 ELSE rs[k][2] + Before(rs, k - 1)
RunsV(e) ==
  LET rs == e.runs  R == DOMAIN rs
      At(i) == {k \in R : rs[k][1] = i}
      Start(i) == LET k == CHOOSE k \in At(i) : TRUE IN Before(rs, k - 1)
      FirstFrom(i) == Before(rs, Cardinality({k \in R : rs[k][1] < i}))
  IN If(\A k \in 1..Len(rs) - 1 : rs[k][1] < rs[k + 1][1], "grouped") \cup If(\A k \in R : rs[k][1] \in 0..e.nq - 1, "index in range")
     \cup If(Before(rs, Len(rs)) = e.n, "length")
     \cup If(Len(e.cnt) = e.nq /\ \A i \in 0..e.nq - 1 : e.cnt[i + 1] = (IF At(i) = {} THEN 0 ELSE rs[CHOOSE k \in At(i) : TRUE][2]), "neighbor_counts")
     \cup If(Len(e.seg) = e.nq /\ \A i \in 0..e.nq - 1 : At(i) # {} => e.seg[i + 1] = Start(i), "segments")
     \cup If(\A i \in 0..e.nq : e.ffi[i + 1] = FirstFrom(i), "find_first_index")

Verdict(e) ==
  IF e.op = "runs" THEN RunsV(e) ELSE
  LET pre == IF line = 0 THEN <<>> ELSE B.ev[line].post IN
  IF e.exc # "" /\ e.op \notin {"badmask", "badr", "badnew"} THEN {"unexpected exception"}
  ELSE IF B.judge = "L01" THEN UNION { ConsV(e.post[i]) : i \in 1..Len(e.post) }
  ELSE LET mk == {"arrays", "pairs", "badnew"} IN
       IF B.judge = "L03" /\ e.op \notin mk THEN {}
       ELSE IF B.judge = "L02" /\ e.op \in mk THEN {}
       ELSE IF ~\A i \in 1..Len(e.post) : LenOK(e.post[i]) THEN {"array lengths"}
       ELSE IF ~\A i \in 1..Len(pre) : LenOK(pre[i]) THEN {}
       ELSE Effect(e, pre, e.post)

Init == ep \in 1..Len(T) /\ line = 0 /\ broken = {}
Next == /\ line < Len(B.ev)
        /\ line' = line + 1
        /\ broken' = Verdict(B.ev[line + 1])
        /\ UNCHANGED ep
Spec == Init /\ [][Next]_vars
Conforms == broken = {}
Where == [ep |-> ep, line |-> line, broken |-> broken]
=============================================================================
