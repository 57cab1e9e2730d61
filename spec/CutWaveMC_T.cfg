INIT Init
NEXT Next
CONSTANTS NTr = 2
 MaxN = 4
 MaxOps = 2
 MODE = "raw"
INVARIANTS RawKept OneAnswer AsAsked Complete Covers
CHECK_DEADLOCK FALSE
