SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS Bins = 16
 Seps <- MCSeps
 Range = 16
 Near = 5
 Depth = 4
 Faults = {"none"}
