SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS Objs = {1, 2}
 Inputs = {1, 2, 3, 4}
 Bads = {1, 2, 3, 4, 5, 6, 7, 8}
 Ops <- OpsK3
 Reuse = TRUE
 Variants <- Zero
 Masks <- Zero
 Depth = 16
