INIT Init
NEXT Next
INVARIANTS GoesOn Frugal Window
CHECK_DEADLOCK FALSE
CONSTANTS
 Clients = {1, 2}
 MaxRequests = 5
 MaxUpdates = 2
 Room = 2
 Emit = FALSE
 Asked = {"hit", "filtered", "badquery"}
