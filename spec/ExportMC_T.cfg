CONSTANTS Ids = {1, 2}
 Stas = {"A", "B"}
 W = 4
SPECIFICATION Spec
INVARIANTS OnePerEvent NothingInvented NothingLost ReadBack
CHECK_DEADLOCK FALSE
