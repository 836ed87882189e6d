SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS L = 9
 Sites <- MCSites
 Cut = 3
 Depth = 4
 Faults = {"none"}
