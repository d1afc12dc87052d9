SPECIFICATION Spec
CONSTANTS
  Purpose = "C14"
  Len0 = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
