INIT Init
NEXT Next
CONSTANTS
  Sigma = {60, 62, 38, 34, 39, 59, 108}
  N = 3
  Escaped = {60, 62, 38, 34, 39}
INVARIANTS SameStructure ShowsData
CHECK_DEADLOCK FALSE
