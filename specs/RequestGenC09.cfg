SPECIFICATION Spec
CONSTANTS
  Purpose = "C09"
  Len0 = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
