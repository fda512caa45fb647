INIT Init
NEXT Next
INVARIANTS GoesOn Frugal Window
CHECK_DEADLOCK FALSE
CONSTANTS
 Clients = {1, 2, 3}
 MaxRequests = 6
 MaxUpdates = 2
 Room = 3
 Emit = FALSE
 Asked = {"hit", "filtered", "badquery"}
