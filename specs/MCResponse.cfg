SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Want = "gzip"
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
