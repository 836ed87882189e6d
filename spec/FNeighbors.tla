----------------------------- MODULE FNeighbors -----------------------------
(* Neighbour queries over a periodic box (Q01-Q05).

   The answer of a query is a function of box, points, query points and arguments:
   Hits gives, per query point, the in-range points with their squared minimum-image
   distance.  Radii are given doubled (2r, an integer) so that half-integer radii can be
   used; r_max = -1 stands for "not given" (infinite for nearest queries). *)
EXTENDS Lat, TLC, Json

\* d2 lies in [rmin, rmax)
InRange(d2, rmin, rmax) == 4*d2 >= rmin*rmin /\ (rmax < 0 \/ 4*d2 < rmax*rmax)
\* float32 cannot tell on an inexact box when the distance equals a bound
AtEdge(b, d2, rmin, rmax) == ~b.ex /\ (4*d2 = rmin*rmin \/ (rmax >= 0 /\ 4*d2 = rmax*rmax))

\* points (indices from 1) seen from q: <<index, d2>>
Seen(b, P, q, i, excl) == { <<j, Sq(Wrap(b, Sub(P[j], q)))>> : j \in { j \in 1..Len(P) : ~(excl /\ i = j) } }
\* the same with the distance minimised over the images (differs from the wrapped one only
\* beyond half the plane spacing)
SeenMin(b, P, q, i, excl) == { <<j, MinImage2(b, Sub(P[j], q))>> : j \in { j \in 1..Len(P) : ~(excl /\ i = j) } }
HitsIn(S, a) == { s \in S : InRange(s[2], a.rmin, a.rmax) }
MayIn(b, S, a) == { s \in S : InRange(s[2], a.rmin, a.rmax) \/ AtEdge(b, s[2], a.rmin, a.rmax) }
MustIn(b, S, a) == { s \in S : InRange(s[2], a.rmin, a.rmax) /\ ~AtEdge(b, s[2], a.rmin, a.rmax) }
Hits(b, P, q, i, a) == HitsIn(Seen(b, P, q, i, a.excl), a)

\* got: the set of <<point, d2>> returned for one query point by a ball query, S = Seen
BallOK(b, S, a, got) == MustIn(b, S, a) \subseteq got /\ got \subseteq MayIn(b, S, a)

(* got: the sequence of <<point, d2>> a k-nearest query returned for one query point, S the
   points seen from it.  It must hold min(k, m) distinct hits, none farther than an omitted
   one. *)
NearestOK(b, S, a, got) ==
  LET H == MustIn(b, S, a)  Y == MayIn(b, S, a)  G == SeqSet(got) IN
    /\ G \subseteq Y /\ Cardinality(G) = Len(got)
    /\ Len(got) >= Min2(a.k, Cardinality(H)) /\ Len(got) <= a.k
    /\ \A h \in H \ G : Len(got) = a.k /\ \A g \in G : g[2] <= h[2]
(* Engines that do not search beyond half the plane spacing (LinkCell): the points nearer
   than that, 4*d2 < h2, must be right; any other entry is some further point, once. *)
NearestFarOK(b, S, a, got, h2) ==
  LET near == { s \in MustIn(b, S, a) : 4*s[2] < h2 }  G == SeqSet(got) IN
    /\ Len(got) <= a.k /\ Cardinality({ g[1] : g \in G }) = Len(got)
    /\ \A g \in G : 4*g[2] < h2 => g \in MayIn(b, S, a)
    /\ \A s \in near \ G : Len(got) = a.k /\ \A g \in G : g[2] <= s[2]
    /\ \A g \in G : g[1] \in { s[1] : s \in S }
------------------------------------------------------------------------------
(* The engine as a state machine (Q03): any number of lazy results, each a cursor over
   its own answer; yielding from one never affects another. *)
CONSTANTS Box0, Pts, QSets, ArgSets, MaxRes, Depth
VARIABLES res, h
vars == <<res, h>>
\* res: sequence of [q, a, i, left, taken] : query set, args, current query point,
\*      hits of it not yet yielded (a set), number yielded so far

Answer(q, a) == [ i \in 1..Len(QSets[q]) |-> Hits(Box0, Pts, QSets[q][i], i, a) ]
Open(q, a) == /\ Len(res) < MaxRes
              /\ res' = Append(res, [q |-> q, a |-> a, i |-> 1, left |-> Answer(q, ArgSets[a])[1], n |-> 0, done |-> FALSE])
\* cursor on a query point with nothing left moves on; it is finished after the last
RECURSIVE Advance(_)
Advance(r) == IF r.left # {} THEN r
              ELSE IF r.i = Len(QSets[r.q]) THEN [r EXCEPT !.done = TRUE]
              ELSE Advance([r EXCEPT !.i = @ + 1, !.left = Answer(r.q, ArgSets[r.a])[r.i + 1]])
Yield(k, s) == LET r == Advance(res[k]) IN
               /\ ~r.done /\ s \in r.left
               /\ res' = [res EXCEPT ![k] = [r EXCEPT !.left = @ \ {s}, !.n = @ + 1]]
Finish(k) == Advance(res[k]).done /\ ~res[k].done /\ res' = [res EXCEPT ![k] = Advance(res[k])]
Restart(k) == res' = [res EXCEPT ![k] = [@ EXCEPT !.i = 1, !.left = Answer(res[k].q, ArgSets[res[k].a])[1], !.n = 0, !.done = FALSE]]
Init == res = <<>> /\ h = <<>>
MCNext == /\ \/ \E q \in 1..Len(QSets), a \in 1..Len(ArgSets) : Open(q, a)
             \/ \E k \in 1..Len(res) : Restart(k) \/ Finish(k) \/ \E s \in Advance(res[k]).left : Yield(k, s)
          /\ UNCHANGED h
MCSpec == Init /\ [][MCNext]_vars
Total(r) == SumSeq([i \in 1..Len(QSets[r.q]) |-> Cardinality(Answer(r.q, ArgSets[r.a])[i])])
\* what a cursor has yielded plus what it still has is exactly its answer
CursorInv == \A k \in 1..Len(res) : LET r == res[k] IN
   /\ r.left \subseteq Answer(r.q, ArgSets[r.a])[r.i]
   /\ r.n + Cardinality(r.left) + SumSeq([i \in 1..Len(QSets[r.q]) |->
         IF i > r.i THEN Cardinality(Answer(r.q, ArgSets[r.a])[i]) ELSE 0]) = Total(r)
   /\ (r.done => r.n = Total(r))
\* Interleavings for replay: commands only (the answers are recomputed when validating)
Cmds == { [op |-> "open", q |-> q, a |-> a] : q \in 1..3, a \in 1..6 }
   \cup { [op |-> "next", k |-> k, n |-> n] : k \in 1..MaxRes, n \in {1, 2, 5} }
   \cup { [op |-> o, k |-> k] : o \in {"restart", "drain", "list", "listd", "drop"}, k \in 1..MaxRes }
   \cup { [op |-> o] : o \in {"compute", "bad"} }
\* (here res only counts results; h is the history)
GenNext == \E c \in { [op |-> "open", q |-> q, a |-> a] : q \in 1..3, a \in 1..6 } \cup Cmds :
   /\ Len(h) < Depth /\ h' = Append(h, c)
   /\ IF c.op = "open" THEN Len(res) < MaxRes /\ res' = Append(res, [q |-> c.q])
      ELSE IF c.op \in {"compute", "bad"} THEN res' = res ELSE c.k <= Len(res) /\ res' = res
   /\ (Len(h') = Depth => PrintT(<<"BEH", ToJson(h')>>))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
