INIT Init
NEXT Next
CONSTANTS
 RunNames <- NamesB
 SubNames <- SubsB
 Params = {1}
 MaxOps = 5
 MODE = "ok"
INVARIANTS Found Confined Apart SubsApart NoClash
CHECK_DEADLOCK FALSE
