SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
INVARIANT Agree
CHECK_DEADLOCK FALSE
