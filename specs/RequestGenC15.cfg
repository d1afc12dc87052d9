SPECIFICATION Spec
CONSTANTS
  Purpose = "C15"
  Len0 = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
