INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Bytes = {0, 10, 97, 195, 169, 240, 248}
 MaxLen = 5
 LineLimit = 3
 TriLimit = 2
 SizeLimit = 4
INVARIANTS Decides Consistent Trigrams3
