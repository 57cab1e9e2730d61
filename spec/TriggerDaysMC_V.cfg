SPECIFICATION Spec
CONSTANTS
 Day = 5
 NDays = 2
 Vals = {0, 1, 2}
 Windows <- W1
 Pads = {8}
INVARIANTS OnePerDay DayRight Sep
CHECK_DEADLOCK FALSE
