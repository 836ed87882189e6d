SPECIFICATION Spec
INVARIANT Denoted
CHECK_DEADLOCK FALSE
CONSTANTS Systems <- MCSystems
 Classes <- MCClasses
 Depth = 3
 Faults <- Named
 Gen = FALSE
