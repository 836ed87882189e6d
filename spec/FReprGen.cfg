SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS Names <- MCNames
 Values = {0, 1, 2}
 Depth = 4
 Faults = {"none"}
