SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxHead = 6
  MaxBody = 4
  Overlap = 2
INVARIANTS Exact Verdict0 InBounds
CHECK_DEADLOCK FALSE
