SPECIFICATION Spec
CONSTANTS
  First = 1600
  Years = 405
INVARIANTS Same Epoch Inverse ReadsBack
CHECK_DEADLOCK FALSE
