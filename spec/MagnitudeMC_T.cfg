INIT Init
NEXT Next
CONSTANTS NObs = 2
 NCalc = 2
INVARIANTS RightSet Monotone
CHECK_DEADLOCK FALSE
