SPECIFICATION Spec
CONSTANTS
 Len0 = 4
 Vals = {0, 1, 2}
 NVals = {0, 1, 2}
 Ths = {1}
 Windows <- WG
INVARIANTS RunsSoFar MachineIsFold NothingLost NothingInvented InOrder Apart Reach NoCross Closure BestOfGroup
CHECK_DEADLOCK FALSE
