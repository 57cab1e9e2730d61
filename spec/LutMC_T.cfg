SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxDf = 3
 MaxOps = 3
 Handles = {1,2,3,4}
INVARIANTS PlaceLaw InGrid IndexLaw NoDup
PROPERTY Frame
CHECK_DEADLOCK FALSE
