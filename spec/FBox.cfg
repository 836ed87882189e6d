SPECIFICATION PSpec
INVARIANT PInv
CHECK_DEADLOCK FALSE
CONSTANTS Boxes <- MCBoxes
 Steps <- MCSteps
 Reach = 2
