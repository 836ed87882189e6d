SPECIFICATION Spec
INVARIANT Alike
CHECK_DEADLOCK FALSE
CONSTANTS Names <- MCNames
 Values = {0, 1, 2}
 Depth = 3
 Faults <- Named
