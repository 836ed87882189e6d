SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS Values <- Many
 Depth = 24
 Faults = {"none"}
