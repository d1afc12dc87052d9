SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxHead = 4
  MaxBody = 2
  Overlap = 2
INVARIANTS Exact Verdict0 InBounds
PROPERTY Answers
CHECK_DEADLOCK FALSE
