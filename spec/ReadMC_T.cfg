INIT Init
NEXT Next
CONSTANTS Day = 4
 Days = 3
INVARIANT Whole
CHECK_DEADLOCK FALSE
