SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS Workers = {1}
 FrameIds = {1, 2, 3, 4}
 BondsOf <- B3
 MaxFrames = 6
 Depth = 12
 Faults = {}
