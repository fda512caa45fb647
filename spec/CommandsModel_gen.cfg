INIT Init
NEXT Next
INVARIANTS WellFormed
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 18
 Emit = TRUE
