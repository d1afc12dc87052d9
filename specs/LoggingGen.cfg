SPECIFICATION Spec
CONSTANTS
  Roll = FALSE
  Len0 = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
