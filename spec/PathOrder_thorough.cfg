INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Bytes = {1, 46, 47, 48, 255}
 MaxLen = 3
INVARIANTS Total Transitive Contiguous UnderOrder
