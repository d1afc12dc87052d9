SPECIFICATION Spec
CONSTANTS
  Purpose = "C10"
  Len0 = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
