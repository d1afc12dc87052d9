SPECIFICATION Spec
CONSTANTS
  MaxAttrs = 3
  Longest = 1
INVARIANTS RoundTrip Tolerant
CHECK_DEADLOCK FALSE
