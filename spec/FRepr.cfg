SPECIFICATION Spec
INVARIANT Alike
CHECK_DEADLOCK FALSE
CONSTANTS Names <- MCNames
 Values = {0, 1, 2}
 Depth = 5
 Faults = {"none"}
