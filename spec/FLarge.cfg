SPECIFICATION Spec
INVARIANT Large
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 11
 Word = 4
 MaxF = 6
 Depth = 1
 Faults = {"none"}
