------------------------------- MODULE FMsdMC -------------------------------
EXTENDS Integers, Sequences
VARIABLES tr, cols, last
ST == {<<1,0,0>>, <<-2,1,0>>, <<0,0,3>>}
SH == <<5, -7, 11>>
M == INSTANCE FMsd WITH Steps <- ST, MaxLen <- 4, Shift <- SH
Spec == M!Spec
Inv == M!Inv
=============================================================================
