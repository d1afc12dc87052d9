SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
  Short = TRUE
INVARIANTS MethodAgrees MediaAgrees
CHECK_DEADLOCK FALSE
