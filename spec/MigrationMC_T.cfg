SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 NNodes = 3
 NOnsets = 2
 NSamples = 1
 MaxTT = 1
 OnVals <- OV3
INVARIANTS Right InBounds NoneForgotten
CHECK_DEADLOCK FALSE
