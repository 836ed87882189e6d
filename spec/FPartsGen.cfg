SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS L = 4
 Sites <- MCSites
 MaxM = 3
 Depth = 4
 Faults = {"none"}
