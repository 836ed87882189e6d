SPECIFICATION MCSpec
INVARIANT MCInv
CHECK_DEADLOCK FALSE
CONSTANTS Box0 <- B0
 Pts <- P0
 QSets <- Q0
 ArgSets <- A0
 MaxRes = 2
 Depth = 0
