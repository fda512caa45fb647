INIT Init
NEXT Next
INVARIANTS GoesOn Frugal Window
CHECK_DEADLOCK FALSE
CONSTANTS
 Clients = {1, 2, 3, 4}
 MaxRequests = 40
 MaxUpdates = 8
 Room = 4
 Emit = TRUE
 Asked <- Together
