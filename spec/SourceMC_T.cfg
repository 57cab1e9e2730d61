INIT Init
NEXT Next
CONSTANTS
 MODE = "ok"
 NX = 4
 NZ = 2
 H = 3
 Stations = {1, 2, 4}
 T = 8
 MW = 3
 NSrc = 2
 Vars = {1, 2, 5}
INVARIANTS Found Highest Triggered Located Once Errors
CHECK_DEADLOCK FALSE
