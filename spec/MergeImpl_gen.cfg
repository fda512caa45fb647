INIT Init
NEXT Show
CHECK_DEADLOCK FALSE
CONSTANTS
 Universe <- U1
 RootPool <- R1
 MaxRoots = 3
 MaxOld = 2
 MaxNew = 2
INVARIANTS Correct Closed
