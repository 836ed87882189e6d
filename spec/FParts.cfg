SPECIFICATION Spec
INVARIANT Tells
CHECK_DEADLOCK FALSE
CONSTANTS L = 4
 Sites <- MCSites
 MaxM = 3
 Depth = 3
 Faults = {"none"}
