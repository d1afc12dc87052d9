SPECIFICATION Spec
CONSTANTS
  Len0 = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
