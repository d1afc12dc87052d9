SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Want = "deflate"
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
