INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Universe <- U1
 RootPool <- R1
 MaxRoots = 2
 MaxOld = 2
 MaxNew = 2
INVARIANTS Correct Closed
