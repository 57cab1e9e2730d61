INIT Init
NEXT Next
CONSTANTS MaxN = 8
 MaxV = 2
 MaxNl = 4
INVARIANTS Right Defined Sums
CHECK_DEADLOCK FALSE
