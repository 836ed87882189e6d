SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS G = 4
 NP = 2
