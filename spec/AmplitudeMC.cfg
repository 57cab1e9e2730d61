INIT Init
NEXT Next
CONSTANTS T = 3
 Sig = 1
 MaxHp = 2
 MaxHs = 3
 NoiseLen = 2
 L = 6
INVARIANTS OneRowEach OnlyComplete Ordered InWindow LineFree PickedOnly
CHECK_DEADLOCK FALSE
