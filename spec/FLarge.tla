------------------------------- MODULE FLarge --------------------------------
(* Size (W07).  Nothing changes when there are more points, bonds, clusters, bins, neighbors or
   frames than fit in a small word: what is told of item i of n is the rule for i.

   The machine: n items are met one by one, frame by frame; item i goes to cell Cell(i), is counted
   in it, and the total and the number of frames are kept; at the end the counts are told per frame.
   Words are small here (Word), so that every word is outgrown within the bounds.  Faulty
   machines keep one of these in one word: "index" (the index of an item), "cell" (the index of a
   cell), "count" (the number in a cell), "total", "frames".

   The rules: systems are lattices, bonds and bins are numbered by formulas, so that what has to be
   told of one item can be said without listing all the others.  Near is checked against the
   definition (all sites at a distance of at most r, over the nearest images) on small lattices. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxN, Word, MaxF, Depth, Faults
Named == {IOEnv.FAULT}
VARIABLES n, i, f, cells, total, log, fault
vars == <<n, i, f, cells, total, log, fault>>
Cell(k, m) == (3 * k) % m                      \* one cell per item, for m not a multiple of 3
One(x, name) == IF fault = name THEN x % Word ELSE x
Init == /\ n \in {m \in 1..MaxN : m % 3 # 0} /\ i = 0 /\ f = 1 /\ total = 0 /\ cells = [c \in 0..n - 1 |-> 0]
        /\ log = <<>> /\ fault \in Faults
Meet == /\ i < n /\ i' = i + 1
        /\ LET c == One(Cell(One(i, "index"), n), "cell") IN cells' = [cells EXCEPT ![c] = One(@ + 1, "count")]
        /\ total' = One(total + 1, "total") /\ UNCHANGED <<n, f, log, fault>>
Again == /\ i = n /\ f < MaxF /\ f' = f + 1 /\ i' = 0 /\ UNCHANGED <<n, cells, total, log, fault>>
Next == Meet \/ Again
Spec == Init /\ [][Next]_vars
Told == [c \in 0..n - 1 |-> <<cells[c], One(f, "frames")>>]
Large == i = n => /\ \A k \in 0..n - 1 : cells[Cell(k, n)] = f /\ Told[Cell(k, n)][1] = Told[Cell(k, n)][2]
                  /\ total = n * f

-----------------------------------------------------------------------------
(* lattices of N[1] x N[2] x N[3] sites, in rows along the first axis *)
Site(N, k) == <<k % N[1], (k \div N[1]) % N[2], k \div (N[1] * N[2])>>
Num(N, s) == s[1] + N[1] * (s[2] + N[2] * s[3])
Steps(N, r2) == {o \in (-1..1) \X (-1..1) \X (-1..1) : /\ o[1]*o[1] + o[2]*o[2] + o[3]*o[3] \in 1..r2
                                                       /\ N[3] = 1 => o[3] = 0}
Near(N, k, r2) == {Num(N, [a \in 1..3 |-> (Site(N, k)[a] + o[a] + N[a]) % N[a]]) : o \in Steps(N, r2)}
Sq(N, k, j) == LET d(a) == LET x == (Site(N, k)[a] - Site(N, j)[a] + N[a]) % N[a] IN IF 2*x > N[a] THEN N[a] - x ELSE x
               IN d(1)*d(1) + d(2)*d(2) + d(3)*d(3)
ASSUME \A N \in (3..5) \X (3..4) \X {1, 3, 4} : \A r2 \in 1..3 : \A k \in {0, 1, 7, N[1]*N[2]*N[3] - 1} :
         Near(N, k, r2) = {j \in 0..N[1]*N[2]*N[3] - 1 : Sq(N, k, j) \in 1..r2}

-----------------------------------------------------------------------------
(* what the real code is asked *)
What == {"query", "nearest", "one", "nlist", "filtered", "pairs", "clusters", "properties", "rdf", "pmft", "frames", "grid", "local",
         "msd", "psi", "ends", "rad", "wrap", "correlation"}
GNext == /\ Len(log) < Depth /\ UNCHANGED <<n, i, f, cells, total, fault>>
         /\ \E w \in {RandomElement(What)} : \E k \in {RandomElement(0..11)} :
              log' = Append(log, [what |-> w, k |-> k])
         /\ (Len(log') = Depth => PrintT(<<"BEH", ToJson(log')>>))
GenSpec == Init /\ [][GNext]_vars
=============================================================================
