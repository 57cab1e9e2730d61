INIT Init
NEXT Next
CONSTANTS Ps = {1, 2, 3, 4, 5, 6, 10, 12}
 Us = {0,1,2,3,4,5,6}
 MaxS = 15
 MaxN = 24
 MaxW = 24
INVARIANTS GridLaw SpanLaw FillLaw
CHECK_DEADLOCK FALSE
