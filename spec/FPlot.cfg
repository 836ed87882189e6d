SPECIFICATION Spec
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
CONSTANTS Tables <- MCTables
 Counts <- MCCounts
 Depth = 4
 Faults = {"none"}
