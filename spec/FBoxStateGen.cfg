SPECIFICATION GenSpec
INVARIANT BoxInv
CHECK_DEADLOCK FALSE
CONSTANTS Lens = {2, 4, 8, 16}
 Tilts <- GenTilts
 Depth = 12
