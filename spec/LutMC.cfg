SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxDf = 3
 MaxOps = 2
 Handles = {1,2,3,4}
INVARIANTS PlaceLaw InGrid IndexLaw NoDup
PROPERTY Frame
CHECK_DEADLOCK FALSE
