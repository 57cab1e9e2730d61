INIT Init
NEXT Next
CONSTANTS Rates = {1, 2, 3, 5, 8}
 Fs = {1, 2, 3}
 MaxSta = 5
 MaxLta = 8
 TTs = {0, 1, 4, 7, 20}
 Ls = {1, 5, 24, 60, 131}
 Steps = 2
INVARIANTS Untouched EverySample Each
CHECK_DEADLOCK FALSE
