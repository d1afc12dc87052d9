SPECIFICATION Spec
CONSTANTS
  Len0 = 22
INVARIANT Emit
CHECK_DEADLOCK FALSE
