INIT Init
NEXT Next
INVARIANTS Intact Succeeds Ready
CHECK_DEADLOCK FALSE
CONSTANTS
 Roots = {1, 2}
 MaxVersion = 4
 MaxRuns = 4
 MaxFaults = 3
 Emit = FALSE
