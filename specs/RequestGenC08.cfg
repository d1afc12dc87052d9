SPECIFICATION Spec
CONSTANTS
  Purpose = "C08"
  Len0 = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
