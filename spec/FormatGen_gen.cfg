INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 NameCounts = {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 80, 99}
 Emit = TRUE
INVARIANTS Undone SoundToo
