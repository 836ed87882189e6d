SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS L = 5
 Sites <- MCSites
 Depth = 5
 Faults = {"none"}
