INIT Init
NEXT Next
CONSTANTS
 MODE = "ok"
 NX = 3
 NZ = 2
 H = 3
 Stations = {1, 3}
 T = 8
 MW = 3
 NSrc = 1
 Vars = {1, 2, 5}
INVARIANTS Found Highest Triggered Located Once Errors
CHECK_DEADLOCK FALSE
