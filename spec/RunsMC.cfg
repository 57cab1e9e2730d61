INIT Init
NEXT Next
CONSTANTS
 RunNames <- NamesA
 SubNames <- SubsA
 Params = {1, 2}
 MaxOps = 5
 MODE = "ok"
INVARIANTS Found Confined Apart SubsApart NoClash
CHECK_DEADLOCK FALSE
