INIT Init
NEXT Next
CONSTANTS T = 5
 Sig = 2
 MaxHp = 2
 MaxHs = 5
 NoiseLen = 2
 L = 6
INVARIANTS OneRowEach OnlyComplete Ordered InWindow LineFree PickedOnly
CHECK_DEADLOCK FALSE
