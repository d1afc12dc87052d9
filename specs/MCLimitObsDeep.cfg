SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 5
  Section = 4
  Count = 2
  Interval = 1
INVARIANT Sound
CHECK_DEADLOCK FALSE
