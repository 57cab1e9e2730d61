INIT Init
NEXT Next
CONSTANTS
 MODE = "ok"
 T = 40
 MW = 2
 MEI = 4
 NX = 2
 Vals = {0, 1, 2, 3}
 NE = 3
INVARIANTS EachDrawn Unchanged Faithful Tiling SlicesMeet StepsRead
CHECK_DEADLOCK FALSE
