SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  MaxParts = 1
INVARIANTS Inverse Truncated
CHECK_DEADLOCK FALSE
