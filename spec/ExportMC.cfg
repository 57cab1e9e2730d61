CONSTANTS Ids = {1, 2}
 Stas = {"A"}
 W = 3
SPECIFICATION Spec
INVARIANTS OnePerEvent NothingInvented NothingLost ReadBack
CHECK_DEADLOCK FALSE
