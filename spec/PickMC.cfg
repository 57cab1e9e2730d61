INIT Init
NEXT Next
CONSTANTS N = 3
 MaxHalf = 3
 NPh = 2
 MaxV = 1
INVARIANTS OneRowEach Disjoint InData AsStated PickInWindow
CHECK_DEADLOCK FALSE
