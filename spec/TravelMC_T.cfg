INIT Init
NEXT Next
CONSTANTS
 MODE = "ok"
 NX = 3
 NZ = 3
 Vals = {0, 3}
 NCol = 9
 Slow = {1, 2, 5}
INVARIANTS Between Exact Smooth Final Ordered
CHECK_DEADLOCK FALSE
