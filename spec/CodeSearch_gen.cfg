INIT Init
NEXT Next
INVARIANTS Exact WellFormed TreeOK
CHECK_DEADLOCK FALSE
CONSTANTS
 Universe <- S3
 RootChoice <- RC
 MaxArgs = 3
 MaxOps = 24
 NContents = 4
 Zips = {FALSE, TRUE}
 Emit = TRUE
