INIT Init
NEXT Next
INVARIANTS Exact WellFormed TreeOK
CHECK_DEADLOCK FALSE
CONSTANTS
 Universe <- S2
 RootChoice <- RB
 MaxArgs = 2
 MaxOps = 6
 NContents = 2
 Zips = {FALSE}
 Emit = FALSE
