SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
 Workers = {1, 2}
 Runs = 2
 Faults <- Named
