INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
CONSTANTS
 NT = 3
 MinFiles = 1
 MaxFiles = 3
 Caps = {1, 2, 3}
 Emit = FALSE
