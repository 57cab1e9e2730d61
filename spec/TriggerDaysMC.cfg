SPECIFICATION Spec
CONSTANTS
 Day = 7
 NDays = 2
 Vals = {0, 1}
 Windows <- W1
 Pads = {8}
INVARIANTS OnePerDay DayRight Sep
CHECK_DEADLOCK FALSE
