INIT Init
NEXT Next
CONSTANTS
 MODE = "ok"
 NX = 2
 NZ = 3
 Vals = {0, 1, 5}
 NCol = 6
 Slow = {1, 2, 5}
INVARIANTS Between Exact Smooth Final Ordered
CHECK_DEADLOCK FALSE
