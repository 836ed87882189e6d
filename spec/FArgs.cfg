SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS MaxN = 3
 Faults = {"none"}
