SPECIFICATION Spec
CONSTANTS
 Len0 = 10
 Vals = {0, 1, 2}
 NVals = {1}
 Ths = {1}
 Windows <- WT
INVARIANTS RunsSoFar MachineIsFold NothingLost NothingInvented InOrder Apart Reach NoCross Closure BestOfGroup
CHECK_DEADLOCK FALSE
