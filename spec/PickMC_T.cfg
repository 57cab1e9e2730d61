INIT Init
NEXT Next
CONSTANTS N = 4
 MaxHalf = 4
 NPh = 2
 MaxV = 1
INVARIANTS OneRowEach Disjoint InData AsStated PickInWindow
CHECK_DEADLOCK FALSE
