INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSmall = 34
 Pows = {5, 6, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 39, 40, 47, 55}
 Len3 = TRUE
INVARIANTS Decodes NotZero Order Varints
