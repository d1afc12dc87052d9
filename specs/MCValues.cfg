SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
INVARIANT Agree
CHECK_DEADLOCK FALSE
