INIT Init
NEXT Next
INVARIANTS Complete Window Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
 Updates = 3
 Searchers = {1, 2}
 MaxSearches = 3
 Emit = TRUE
