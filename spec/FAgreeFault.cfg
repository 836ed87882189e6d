SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS MaxR = 2
 Turns = 4
 Depth = 4
 Faults <- Named
