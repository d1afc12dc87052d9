SPECIFICATION Spec
CONSTANTS
  FilterIds = {1, 2, 3, 4, 5}
  MaxLen = 3
  Depth = 28
INVARIANT Emit
CHECK_DEADLOCK FALSE
