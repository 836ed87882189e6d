SPECIFICATION Spec
INVARIANTS Honest TypeOK AbstractAgrees HeldStable
CHECK_DEADLOCK FALSE
CONSTANTS Objs = {1, 2}
 Inputs = {1, 2}
 NCells = 8
 MaxHolds = 2
 Depth = 7
 Faults = {"none"}
