INIT Init
NEXT Next
CONSTANTS NTr = 1
 MaxN = 5
 MaxOps = 2
 MODE = "raw"
INVARIANTS RawKept OneAnswer AsAsked Complete Covers
CHECK_DEADLOCK FALSE
