----------------------------- MODULE FFilterMC -----------------------------
EXTENDS Integers
VARIABLES seen, open, closed, stopped, sann, sum2, done
CONSTANTS MaxB
V == { <<1,0,0>>, <<0,1,0>>, <<0,0,-1>>, <<2,0,0>>, <<0,-2,0>>, <<2,2,1>>, <<1,2,2>>, <<-2,1,2>>, <<3,0,0>>, <<3,4,0>>, <<0,3,-4>> }
R == {1, 2}
INSTANCE FFilter WITH Vecs <- V, Rads <- R
=============================================================================
