SPECIFICATION MCSpec
INVARIANT MCInv
CONSTANT MaxB = 4
CHECK_DEADLOCK FALSE
