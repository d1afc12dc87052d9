SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxHead = 4
  MaxBody = 2
  Overlap = 1
INVARIANTS Exact Verdict0 InBounds
PROPERTY Answers
CHECK_DEADLOCK FALSE
