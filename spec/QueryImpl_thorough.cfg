INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 NFiles = 2
 Pairs = TRUE
INVARIANTS Correct FileByFile
