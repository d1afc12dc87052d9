SPECIFICATION Spec
CONSTANTS
  Section = 3
  Count = 2
  Interval = 1
  Runners = {1, 2}
  Requests = 4
  MaxTime = 11
  Buffer = 0
  Stale = FALSE
  Locked = TRUE
INVARIANTS Within Once
PROPERTY Served
CHECK_DEADLOCK FALSE
