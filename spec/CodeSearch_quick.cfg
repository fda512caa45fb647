INIT Init
NEXT Next
INVARIANTS Exact WellFormed TreeOK
CHECK_DEADLOCK FALSE
CONSTANTS
 Universe <- S1
 RootChoice <- RA
 MaxArgs = 2
 MaxOps = 5
 NContents = 2
 Zips = {FALSE}
 Emit = FALSE
