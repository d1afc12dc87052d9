SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  MaxQuery = 5
INVARIANTS HeadAgrees QueryAgrees
CHECK_DEADLOCK FALSE
