INIT Init
NEXT Next
CONSTANTS Rates = {1, 3, 8}
 Fs = {1, 3}
 MaxSta = 3
 MaxLta = 5
 TTs = {0, 7, 20}
 Ls = {1, 5, 24, 60}
 Steps = 2
INVARIANTS Untouched EverySample Each
CHECK_DEADLOCK FALSE
