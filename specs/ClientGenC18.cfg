SPECIFICATION Spec
CONSTANTS
  Purpose = "C18"
  Len0 = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
