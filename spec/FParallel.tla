------------------------------ MODULE FParallel ------------------------------
(* How freud divides a computation among threads (T01): an index range is split recursively
   into pieces, idle workers take pieces and process their indices one at a time, each index
   writes its own output element, adds a contribution to a bin of the worker's own histogram
   and appends bonds to the worker's own list; at the end the histograms are summed and the
   lists concatenated and sorted.  Whatever the splitting, the assignment and the
   interleaving, the outcome is the sequential one.

   Faulty variants: "overlap" (both halves contain the middle index), "gap" (the middle index
   is in neither half), "shared" (workers load and store one common histogram in two steps),
   "unmerged" (the histogram of a worker that finished first is dropped), "unsorted" (lists
   are concatenated only), "stale" (a worker's histogram is not cleared before a run).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
CONSTANTS N, Workers, Faults, Runs
Named == {IOEnv.FAULT}
Bins == 1..2
BinOf(i) == 1 + (i % 2)
ValOf(i) == i
BondsOf(i) == IF i = 2 THEN <<>> ELSE <<10 * i + 1, 10 * i + 2>>
Zero == [b \in Bins |-> 0]

VARIABLES pending, work, hist, shared, tmp, out, bonds, run, result, fault
vars == <<pending, work, hist, shared, tmp, out, bonds, run, result, fault>>
Idle == [lo |-> 0, hi |-> 0]
NoTmp == [b |-> 0, v |-> 0]
Init == /\ pending = {[lo |-> 1, hi |-> N + 1]} /\ work = [w \in Workers |-> Idle]
        /\ hist = [w \in Workers |-> Zero] /\ shared = Zero /\ tmp = [w \in Workers |-> NoTmp]
        /\ out = [i \in 1..N |-> 0] /\ bonds = [w \in Workers |-> <<>>] /\ run = 1
        /\ result = <<>> /\ fault \in Faults

Split(p) == /\ p.hi - p.lo >= 2
            /\ LET m == (p.lo + p.hi) \div 2 IN
                 pending' = (pending \ {p}) \cup {[lo |-> p.lo, hi |-> IF fault = "overlap" THEN m + 1 ELSE m],
                                                  [lo |-> IF fault = "gap" THEN m + 1 ELSE m, hi |-> p.hi]}
            /\ UNCHANGED <<work, hist, shared, tmp, out, bonds, run, result, fault>>
Take(w, p) == /\ work[w] = Idle /\ pending' = pending \ {p} /\ work' = [work EXCEPT ![w] = p]
              /\ UNCHANGED <<hist, shared, tmp, out, bonds, run, result, fault>>
Adv(w) == IF work[w].lo + 1 >= work[w].hi THEN Idle ELSE [work[w] EXCEPT !.lo = @ + 1]
\* an empty piece (only the faulty splitting makes one)
Skip(w) == /\ work[w] # Idle /\ work[w].lo >= work[w].hi /\ work' = [work EXCEPT ![w] = Idle]
           /\ UNCHANGED <<pending, hist, shared, tmp, out, bonds, run, result, fault>>
Process(w) ==
  /\ work[w] # Idle /\ work[w].lo < work[w].hi /\ tmp[w] = NoTmp
  /\ LET i == work[w].lo IN
       /\ out' = [out EXCEPT ![i] = @ + ValOf(i)]
       /\ bonds' = [bonds EXCEPT ![w] = @ \o BondsOf(i)]
       /\ IF fault = "shared"
          THEN tmp' = [tmp EXCEPT ![w] = [b |-> BinOf(i), v |-> shared[BinOf(i)] + ValOf(i)]] /\ UNCHANGED <<hist, work>>
          ELSE hist' = [hist EXCEPT ![w][BinOf(i)] = @ + ValOf(i)] /\ work' = [work EXCEPT ![w] = Adv(w)] /\ UNCHANGED tmp
  /\ UNCHANGED <<pending, shared, run, result, fault>>
Store(w) == /\ tmp[w] # NoTmp /\ shared' = [shared EXCEPT ![tmp[w].b] = tmp[w].v]
            /\ tmp' = [tmp EXCEPT ![w] = NoTmp] /\ work' = [work EXCEPT ![w] = Adv(w)]
            /\ UNCHANGED <<pending, hist, out, bonds, run, result, fault>>

RECURSIVE Sum(_, _), Cat(_), Insert(_, _), Sort(_)
Sum(S, b) == IF S = {} THEN 0 ELSE LET w == CHOOSE x \in S : TRUE IN hist[w][b] + Sum(S \ {w}, b)
Cat(S) == IF S = {} THEN <<>> ELSE LET w == CHOOSE x \in S : TRUE IN bonds[w] \o Cat(S \ {w})
Insert(x, q) == IF q = <<>> THEN <<x>> ELSE IF x <= Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(x, Tail(q))
Sort(q) == IF q = <<>> THEN <<>> ELSE Insert(Head(q), Sort(Tail(q)))
First == CHOOSE w \in Workers : TRUE
Done == pending = {} /\ \A w \in Workers : work[w] = Idle
Finish ==
  /\ Done /\ run <= Runs
  /\ result' = [h |-> [b \in Bins |-> shared[b] + Sum(IF fault = "unmerged" THEN Workers \ {First} ELSE Workers, b)],
                o |-> out, l |-> IF fault = "unsorted" THEN Cat(Workers) ELSE Sort(Cat(Workers))]
  /\ run' = run + 1
  /\ pending' = IF run < Runs THEN {[lo |-> 1, hi |-> N + 1]} ELSE {}
  /\ hist' = IF fault = "stale" THEN hist ELSE [w \in Workers |-> Zero]
  /\ shared' = Zero /\ out' = [i \in 1..N |-> 0] /\ bonds' = [w \in Workers |-> <<>>]
  /\ UNCHANGED <<work, tmp, fault>>
Next == \/ \E p \in pending : Split(p) \/ (\E w \in Workers : Take(w, p))
        \/ \E w \in Workers : Process(w) \/ Store(w) \/ Skip(w)
        \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE SeqBonds(_), SeqHist(_, _)
SeqBonds(i) == IF i = 0 THEN <<>> ELSE SeqBonds(i - 1) \o BondsOf(i)
SeqHist(i, b) == IF i = 0 THEN 0 ELSE SeqHist(i - 1, b) + (IF BinOf(i) = b THEN ValOf(i) ELSE 0)
Sequential == [h |-> [b \in Bins |-> SeqHist(N, b)], o |-> [i \in 1..N |-> ValOf(i)], l |-> SeqBonds(N)]
Right == result = <<>> \/ result = Sequential
=============================================================================
