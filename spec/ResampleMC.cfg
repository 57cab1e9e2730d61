INIT Init
NEXT Next
CONSTANTS Ps = {1, 2, 3, 4, 6}
 Us = {0, 1, 2, 3}
 MaxS = 8
 MaxN = 10
 MaxW = 12
INVARIANTS GridLaw SpanLaw FillLaw
CHECK_DEADLOCK FALSE
