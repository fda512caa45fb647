INIT Init
NEXT Next
INVARIANTS Intact Succeeds Ready
CHECK_DEADLOCK FALSE
CONSTANTS
 Roots = {1, 2}
 MaxVersion = 4
 MaxRuns = 5
 MaxFaults = 4
 Emit = TRUE
