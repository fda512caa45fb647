INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 6
 Caps = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
 Pres = {0, 1, 2, 3}
 Posts = {0, 1, 2, 3}
 Emit = TRUE
 EmitLen = 22
INVARIANTS Correct Progress Ends
