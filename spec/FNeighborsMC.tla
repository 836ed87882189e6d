---------------------------- MODULE FNeighborsMC ----------------------------
EXTENDS FNeighbors
B0 == [L |-> <<8,4,1>>, bx |-> 2, cx |-> 0, cy |-> 0, d |-> 2, per |-> <<TRUE,TRUE,TRUE>>, ex |-> TRUE]
P0 == << <<-4,-2,0>>, <<-3,-2,0>>, <<3,1,0>>, <<-3,-2,0>> >>
Q0 == << << <<-4,1,0>>, <<-3,-2,0>> >>, << <<-4,-2,0>>, <<-3,-2,0>>, <<3,1,0>> >> >>
A0 == << [rmin |-> 0, rmax |-> 3, excl |-> FALSE], [rmin |-> 1, rmax |-> 4, excl |-> TRUE] >>
\* ball answers agree with enumerating the images outright, and are symmetric
Brute(p, q) == LET D == { Sq(Add(Sub(p, q), Lattice(B0, <<i, j, 0>>))) : i \in -3..3, j \in -3..3 }
               IN CHOOSE m \in D : \A x \in D : m <= x
AnswerInv == \A a \in 1..2 : \A q \in 1..2 : \A i \in 1..Len(Q0[q]) :
   Answer(q, A0[a])[i] = { s \in { <<j, Brute(P0[j], Q0[q][i])>> : j \in 1..4 } :
                            InRange(s[2], A0[a].rmin, A0[a].rmax) /\ ~(A0[a].excl /\ s[1] = i) }
MCInv == CursorInv /\ AnswerInv
=============================================================================
