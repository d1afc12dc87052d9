SPECIFICATION Spec
CONSTANTS
  Roll = TRUE
  Len0 = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
