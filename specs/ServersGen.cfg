SPECIFICATION Spec
CONSTANTS
  Len0 = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
