INIT Init
NEXT Next
CONSTANTS Day = 4
 Days = 2
INVARIANT Whole
CHECK_DEADLOCK FALSE
