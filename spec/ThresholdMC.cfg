SPECIFICATION Spec
CONSTANTS
 N = 5
 Vals = {1, 2, 4, 7}
 Wins = {1, 2, 3, 5, 8}
 Mults = {2, 3}
INVARIANTS OneEach HalfBelow MedianRight SameInWindow
CHECK_DEADLOCK FALSE
