SPECIFICATION GenSpec

CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 1
 Word = 4
 MaxF = 1
 Depth = 4
 Faults = {"none"}
