----------------------------- MODULE FClusterMC -----------------------------
EXTENDS Integers
VARIABLES bonds, todo, cls
N4 == 1..4
INSTANCE FCluster WITH Nodes <- N4, MaxBonds <- 4
=============================================================================
