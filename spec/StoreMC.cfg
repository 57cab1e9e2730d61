INIT Init
NEXT Next
CONSTANTS U = 1000
 F = 100
 Top = 60
 Word = 3276
INVARIANTS NoWrap RoundTrip Monotone
CHECK_DEADLOCK FALSE
