SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  Short = TRUE
INVARIANTS MethodAgrees MediaAgrees Unique
CHECK_DEADLOCK FALSE
