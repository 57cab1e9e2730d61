SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 NNodes = 2
 NOnsets = 2
 NSamples = 2
 MaxTT = 1
 OnVals <- OV
INVARIANTS Right InBounds NoneForgotten
CHECK_DEADLOCK FALSE
