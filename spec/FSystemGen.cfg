SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS Systems <- MCSystems
 Classes <- MCClasses
 Depth = 6
 Faults = {"none"}
 Gen = TRUE
