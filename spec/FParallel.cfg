SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS N = 6
 Workers = {1, 2, 3}
 Runs = 1
 Faults = {"none"}
