SPECIFICATION Spec
CONSTANTS
  Purpose = "C13"
  Len0 = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
