------------------------------ MODULE FFilter ------------------------------
(* Neighbour-shell filters (F01 SANN, F02 RAD).  The bonds of one query point are a set of
   records with squared length d2 and integer vector v; radii R are integers. *)
EXTENDS Lat, TLC

\* integer square root: floor(sqrt(x))
RECURSIVE ISq(_, _, _)
ISq(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= x \div m THEN ISq(x, m, hi) ELSE ISq(x, lo, m)
ISqrt(x) == IF x = 0 THEN 0 ELSE ISq(x, 0, 46341)
IsSquare(x) == ISqrt(x) * ISqrt(x) = x
\* sqrt(d2) in 1/K: between Lo and Lo+1 (equal to Lo when exact); d2 < 2^31 / K^2
K == 1000
Lo(d2) == IF IsSquare(d2) THEN K * ISqrt(d2) ELSE ISqrt(K * K * d2)
Slack(d2) == IF IsSquare(d2) THEN 0 ELSE 1

\* ---- SANN on the sorted sequence s of squared distances -------------------------------
\* lo..lo+sl brackets the sum of the m nearest; the shell of m ends before bond m+1 when
\* sum <= (m-2) d_(m+1).  The result holds every size the rule allows; Len(s): not completed.
RECURSIVE Walk(_, _, _, _)
Walk(s, m, lo, sl) ==
  IF m = Len(s) THEN {m} ELSE
  LET d == Lo(s[m+1])  e == Slack(s[m+1])
      may == lo <= (m-2) * (d + e)
      must == IF sl + e = 0 THEN may ELSE lo + sl + 1 < (m-2) * d
  IN (IF may THEN {m} ELSE {}) \cup (IF must THEN {} ELSE Walk(s, m+1, lo + d, sl + e))
SannSizes(s) == IF Len(s) <= 3 THEN {Len(s)}
                ELSE Walk(s, 3, Lo(s[1]) + Lo(s[2]) + Lo(s[3]), Slack(s[1]) + Slack(s[2]) + Slack(s[3]))

\* ---- RAD ------------------------------------------------------------------------------
\* j (nearer) blocks k:  R_k^2 d_j^3 < R_j^2 (v_j.v_k) d_k, decided on the squares.
\* Sixth powers stay below 2^31 for d2 <= 48 and R <= 3; exact ties are left open.
Pow4(r) == r*r*r*r
BlockL(j, k) == Pow4(k.R) * j.d2 * j.d2 * j.d2
BlockR(j, k) == Pow4(j.R) * Dot(j.v, k.v) * Dot(j.v, k.v) * k.d2
BlocksMust(j, k) == Dot(j.v, k.v) > 0 /\ BlockL(j, k) < BlockR(j, k)
ExactTie(j, k) == Dot(j.v, k.v) > 0 /\ BlockL(j, k) = BlockR(j, k)
Nearer(j, k) == j.d2 < k.d2
\* S the bonds of one query point (a set of records with distinct id)
Blocked(S, k) == \E j \in S : Nearer(j, k) /\ BlocksMust(j, k)
MaybeBlocked(S, k) == \E j \in S : j.id # k.id /\ j.d2 <= k.d2 /\ ExactTie(j, k)   \* also coincident points
OpenMust(S) == { k \in S : ~Blocked(S, k) /\ ~MaybeBlocked(S, k) }
OpenMay(S) == { k \in S : ~Blocked(S, k) }
\* closed: nothing at or beyond the first blocked bond
ClosedMust(S) == { k \in S : \A b \in S : (Blocked(S, b) \/ MaybeBlocked(S, b)) => Nearer(k, b) }
ClosedMay(S) == { k \in S : ~Blocked(S, k) /\ \A b \in S : Blocked(S, b) => ~Nearer(b, k) }
ClosedFull(S) == \A k \in S : ~Blocked(S, k)         \* may report an incomplete shell
ClosedSurelyFull(S) == \A k \in S : ~Blocked(S, k) /\ ~MaybeBlocked(S, k)
------------------------------------------------------------------------------
(* Design check: grow one query point's bonds outward and keep the two shells incrementally,
   as an algorithm does; they always equal the definitions above. *)
CONSTANTS Vecs, Rads, MaxB
VARIABLES seen, open, closed, stopped, sann, sum2, done
vars == <<seen, open, closed, stopped, sann, sum2, done>>
MCInit == seen = <<>> /\ open = {} /\ closed = {} /\ stopped = FALSE /\ sann = 0 /\ sum2 = 0 /\ done = FALSE
MCNext == \E v \in Vecs, r \in Rads :
  LET n == Len(seen) + 1
      b == [id |-> n, v |-> v, d2 |-> Sq(v), R |-> r]
      bl == \E i \in 1..Len(seen) : Nearer(seen[i], b) /\ BlocksMust(seen[i], b)
      d == ISqrt(b.d2)
  IN /\ n <= MaxB /\ (n > 1 => seen[n-1].d2 <= b.d2)
     /\ \A i \in 1..n-1 : ~ExactTie(seen[i], b)
     /\ seen' = Append(seen, b)
     /\ open' = IF bl THEN open ELSE open \cup {b}
     /\ stopped' = (stopped \/ bl)
     /\ closed' = IF stopped' THEN closed ELSE closed \cup {b}
     /\ done' = (done \/ (n > 3 /\ sum2 <= (sann - 2) * d))
     /\ sann' = IF done' THEN sann ELSE sann + 1
     /\ sum2' = IF done' THEN sum2 ELSE sum2 + d
MCSpec == MCInit /\ [][MCNext]_vars
All == { seen[i] : i \in 1..Len(seen) }
MCInv ==
  /\ open = OpenMust(All) /\ open = OpenMay(All)
  /\ closed \subseteq open
  /\ ClosedMust(All) \subseteq closed /\ closed \subseteq ClosedMay(All)
  /\ (stopped <=> ~ClosedFull(All))
  /\ (Len(seen) > 0 => seen[1] \in closed)
  /\ (\A i \in 1..Len(seen) : IsSquare(seen[i].d2)) =>
        SannSizes([i \in 1..Len(seen) |-> seen[i].d2]) = {sann}
  /\ (Len(seen) >= 3 => sann >= 3)
=============================================================================
