SPECIFICATION DSpec
CHECK_DEADLOCK FALSE
INVARIANT DInv
CONSTANTS Widths = {1, 2, 3, 4, 5, 7}
 Grids = {1, 2, 3, 4}
 Radii2 = {1, 2, 3, 4, 5, 7, 9, 12, 16, 25}
