INIT Init
NEXT Next
CONSTANTS U = 1000
 F = 100
 Top = 700
 Word = 32767
INVARIANTS NoWrap RoundTrip Monotone
CHECK_DEADLOCK FALSE
