SPECIFICATION Spec
CONSTANTS
  Len0 = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
