INIT Init
NEXT Next
CONSTANTS W = 2
 MaxN = 3
 MaxTraces = 2
INVARIANTS Agrees Monotone
CHECK_DEADLOCK FALSE
