SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxParts = 2
INVARIANTS Inverse
CHECK_DEADLOCK FALSE
