INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Size = 6
 Stale = FALSE
 MaxOps = 60
 Emit = TRUE
INVARIANTS Members Dense Once
