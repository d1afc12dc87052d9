SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  Short = FALSE
INVARIANTS MethodAgrees MediaAgrees
CHECK_DEADLOCK FALSE
