SPECIFICATION Spec
INVARIANT NeverBad
CHECK_DEADLOCK FALSE
CONSTANTS Objs = {1, 2}
 Inputs = {1, 2}
 NCells = 8
 MaxHolds = 2
 Depth = 7
 Faults <- Named
