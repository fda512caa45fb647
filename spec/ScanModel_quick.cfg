INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Bytes = {0, 10, 97, 195, 169, 240, 248}
 MaxLen = 4
 LineLimit = 3
 TriLimit = 1
 SizeLimit = 3
INVARIANTS Decides Consistent Trigrams3
