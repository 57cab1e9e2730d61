INIT Init
NEXT Next
CONSTANTS W = 3
 MaxN = 4
 MaxTraces = 2
INVARIANTS Agrees Monotone
CHECK_DEADLOCK FALSE
