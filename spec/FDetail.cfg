SPECIFICATION Spec
INVARIANT Tells
CHECK_DEADLOCK FALSE
CONSTANTS Bins = 16
 Seps <- MCSeps
 Range = 16
 Near = 5
 Depth = 7
 Faults = {"none"}
