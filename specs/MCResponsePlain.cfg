SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Want = ""
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
