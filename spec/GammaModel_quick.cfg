INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSmall = 34
 Pows = {5, 7, 8, 15, 16, 23, 24, 31, 32, 33, 40, 55}
 Len3 = FALSE
INVARIANTS Decodes NotZero Order Varints
