SPECIFICATION Spec
INVARIANT NeverBad
CHECK_DEADLOCK FALSE
CONSTANTS Values <- Few
 Depth = 6
 Faults <- Named
