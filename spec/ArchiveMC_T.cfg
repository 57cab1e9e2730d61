INIT Init
NEXT Next
CONSTANTS Per = 3
 NDays = 2
 MaxRecs = 3
 MaxLen = 3
 Pads = {0, 1}
INVARIANTS RawLaw WfLaw EmptyLaw FormLaw JoinLaw
CHECK_DEADLOCK FALSE
