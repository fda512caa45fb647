INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
CONSTANTS
 NT = 4
 MinFiles = 1
 MaxFiles = 4
 Caps = {1, 2, 3, 5}
 Emit = FALSE
