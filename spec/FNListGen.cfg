SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS Start <- S0
 Masks <- M0
 Radii <- R0
 MaxH = 4
 Depth = 16
