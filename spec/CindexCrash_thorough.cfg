INIT Init
NEXT Next
INVARIANTS Intact Succeeds Ready
CHECK_DEADLOCK FALSE
CONSTANTS
 Roots = {1, 2, 3}
 MaxVersion = 5
 MaxRuns = 6
 MaxFaults = 4
 Emit = FALSE
