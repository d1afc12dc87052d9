SPECIFICATION Spec
CONSTANTS
  First = 1965
  Years = 45
INVARIANTS Same Epoch Inverse ReadsBack
CHECK_DEADLOCK FALSE
