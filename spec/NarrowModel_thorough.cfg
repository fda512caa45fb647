SPECIFICATION Spec
CONSTANTS
  B = 3
  L = 5
INVARIANT NotTooMuch
CHECK_DEADLOCK FALSE
