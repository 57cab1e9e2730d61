SPECIFICATION Spec
CONSTANTS
 NNodes = 5
 NSamples = 2
 Vals = {1, 2, 3}
INVARIANTS Right SoFar
CHECK_DEADLOCK FALSE
