SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 2
 Faults <- Named
