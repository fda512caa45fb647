INIT Init
NEXT Next
INVARIANTS Complete Window Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
 Updates = 4
 Searchers = {1, 2, 3}
 MaxSearches = 2
 Emit = FALSE
