INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
CONSTANTS
 NT = 10
 MinFiles = 4
 MaxFiles = 8
 Caps = {1, 2, 3, 4, 5, 7, 9, 13}
 Emit = TRUE
