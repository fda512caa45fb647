SPECIFICATION Spec
CONSTANTS
  B = 3
  L = 3
INVARIANT NotTooMuch
CHECK_DEADLOCK FALSE
