SPECIFICATION Spec
CONSTANTS
  Purpose = "C12"
  Len0 = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
