INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Size = 4
 Stale = TRUE
 MaxOps = 0
 Emit = FALSE
INVARIANTS Members Dense Once
