SPECIFICATION Spec
CONSTANTS
  MaxLen = 8
  MaxQuery = 7
INVARIANTS HeadAgrees QueryAgrees
CHECK_DEADLOCK FALSE
