INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 6
 Caps = {1, 2, 3, 4, 5, 6, 7}
 Pres = {0, 1, 2}
 Posts = {0, 1, 2}
 Emit = FALSE
 EmitLen = 0
INVARIANTS Correct Progress Ends
