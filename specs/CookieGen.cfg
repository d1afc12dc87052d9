SPECIFICATION Spec
CONSTANTS
  Len0 = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
