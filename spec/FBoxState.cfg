SPECIFICATION MCSpec
INVARIANT BoxInv
CHECK_DEADLOCK FALSE
CONSTANTS Lens = {4}
 Tilts <- MCTilts
 Depth = 0
