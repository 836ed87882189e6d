SPECIFICATION MCSpec
INVARIANT MCInv
CHECK_DEADLOCK FALSE
CONSTANTS Start <- S0
 Masks <- M0
 Radii <- R0
 MaxH = 2
 Depth = 0
