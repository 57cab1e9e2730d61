SPECIFICATION Spec
CONSTANTS
 Len0 = 6
 Vals = {0, 1, 2}
 NVals = {1}
 Ths = {1}
 Windows <- WG
INVARIANTS Out
CHECK_DEADLOCK FALSE
