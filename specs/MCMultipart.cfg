SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxParts = 1
INVARIANTS Inverse Truncated
CHECK_DEADLOCK FALSE
