SPECIFICATION Spec
INVARIANT Tells
CHECK_DEADLOCK FALSE
CONSTANTS L = 5
 Sites <- MCSites
 Depth = 4
 Faults = {"none"}
