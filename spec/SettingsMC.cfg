CONSTANTS N = 3
SPECIFICATION Spec
INVARIANTS RefusedLeaves IntervalHolds MethodHolds UsedIsKnown SameNames Complete RateFollows WriteBack GridHolds BelowNyquist
CHECK_DEADLOCK FALSE
