SPECIFICATION Spec
CONSTANTS
  MaxAttrs = 4
  Longest = 1
INVARIANTS RoundTrip Tolerant
CHECK_DEADLOCK FALSE
