SPECIFICATION Spec
CONSTANTS
 Days = {1, 2}
 Subs = {"a", "b"}
 Thresholds = {1, 2, 3}
 Calls = 3
INVARIANTS NoResidue
CHECK_DEADLOCK FALSE
