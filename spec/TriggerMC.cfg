SPECIFICATION Spec
CONSTANTS
 Len0 = 7
 Vals = {0, 1, 2}
 NVals = {1}
 Ths = {1}
 Windows <- WQ
INVARIANTS RunsSoFar MachineIsFold NothingLost NothingInvented InOrder Apart Reach NoCross Closure BestOfGroup
CHECK_DEADLOCK FALSE
