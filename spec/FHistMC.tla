------------------------------ MODULE FHistMC ------------------------------
EXTENDS Integers, Sequences, IOUtils
VARIABLES loc, glob, dirty, nf, norm, done, todo, cur, frames, shown, shownOK
B3 == <<<<0, 1>>, <<1, 1, 0>>, <<>> >>
H == INSTANCE FHist WITH Workers <- {1, 2}, FrameIds <- 1..3, BondsOf <- B3, MaxFrames <- 2,
                         Faults <- IF "FAULT" \in DOMAIN IOEnv THEN {IOEnv.FAULT} ELSE {}
Spec == H!HSpec
Inv == H!HInv
=============================================================================
