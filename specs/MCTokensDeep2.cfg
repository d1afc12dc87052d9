SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
  Short = FALSE
INVARIANTS MethodAgrees MediaAgrees
CHECK_DEADLOCK FALSE
