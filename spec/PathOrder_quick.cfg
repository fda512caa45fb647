INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Bytes = {1, 33, 47, 97}
 MaxLen = 3
INVARIANTS Total Transitive Contiguous UnderOrder
