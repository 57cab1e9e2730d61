SPECIFICATION Spec
CONSTANTS
 NNodes = 4
 NSamples = 2
 Vals = {1, 2, 3}
INVARIANTS Right SoFar
CHECK_DEADLOCK FALSE
