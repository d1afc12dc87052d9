SPECIFICATION Spec
CONSTANTS
  Early = 3
  Late = 400
  Margin = 120
INVARIANT Report
CHECK_DEADLOCK FALSE
