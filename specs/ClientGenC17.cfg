SPECIFICATION Spec
CONSTANTS
  Purpose = "C17"
  Len0 = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
