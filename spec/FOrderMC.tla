------------------------------ MODULE FOrderMC ------------------------------
EXTENDS Integers, Sequences
VARIABLES ref, cur, bonds, k, turns, bent, sep0, chi0, psi0, steps
QS == {<<1,0,0,0>>, <<1,1,0,0>>, <<2,1,0,0>>, <<1,-1,1,1>>}
SP == {<<0,1,0,0>>, <<1,0,1,0>>, <<1,1,1,-1>>}
D2 == {<<s,0,0,0>> : s \in {1,-1}} \cup {<<0,s,0,0>> : s \in {1,-1}} \cup {<<0,0,s,0>> : s \in {1,-1}} \cup {<<0,0,0,s>> : s \in {1,-1}}
BS == { << <<<<1,0,0>>,1>>, <<<<2,1,0>>,3>>, <<<<-1,3,0>>,2>> >>, << <<<<1,1,0>>,1>>, <<<<-3,0,0>>,2>> >>, << >> }
O == INSTANCE FOrder WITH Quats <- QS, Spins <- SP, Group <- D2, Bonds <- BS, Ks <- {4, 6}
Spec == O!Spec
Inv == O!Inv
=============================================================================
