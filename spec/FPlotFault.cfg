SPECIFICATION Spec
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
CONSTANTS Tables <- MCTables
 Counts <- MCCounts
 Depth = 3
 Faults <- Named
