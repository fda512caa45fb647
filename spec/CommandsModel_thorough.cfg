INIT Init
NEXT Next
INVARIANTS Local Named Checking WellFormed
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 4
 Emit = FALSE
