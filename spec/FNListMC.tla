------------------------------- MODULE FNListMC -------------------------------
EXTENDS FNList
B1(q, p, x, w) == [q |-> q, p |-> p, v |-> <<x, 0, 0>>, w |-> w]
S0 == [nq |-> 3, np |-> 3, b |-> <<B1(0,2,1,1), B1(0,1,3,2), B1(2,0,2,1), B1(2,2,1,1)>>]
M0 == [1..4 -> BOOLEAN] \cup [1..3 -> BOOLEAN] \cup [1..2 -> BOOLEAN]
R0 == { <<4, 0>>, <<7, 3>>, <<3, 2>> }
=============================================================================
