INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Universe <- U1
 RootPool <- R1
 MaxRoots = 3
 MaxOld = 4
 MaxNew = 3
INVARIANTS Correct Closed
