SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 4
  Section = 3
  Count = 2
  Interval = 1
INVARIANT Sound
CHECK_DEADLOCK FALSE
