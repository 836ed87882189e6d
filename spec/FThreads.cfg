SPECIFICATION Spec
INVARIANTS Restores ImplAgrees
CHECK_DEADLOCK FALSE
CONSTANTS Values <- Few
 Depth = 6
 Faults = {"none"}
