INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Size = 5
 Stale = TRUE
 MaxOps = 0
 Emit = FALSE
INVARIANTS Members Dense Once
