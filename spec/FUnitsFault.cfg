SPECIFICATION Spec
INVARIANT Tells
CHECK_DEADLOCK FALSE
CONSTANTS L = 9
 Sites <- MCSites
 Cut = 3
 Depth = 2
 Faults <- Named
