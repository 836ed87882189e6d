SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS Tables <- MCTables
 Counts <- MCCounts
 Depth = 6
 Faults = {"none"}
