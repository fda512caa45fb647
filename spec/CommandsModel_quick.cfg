INIT Init
NEXT Next
INVARIANTS Local Named Checking WellFormed
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 3
 Emit = FALSE
