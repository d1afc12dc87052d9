SPECIFICATION Spec
CONSTANTS
  Section = 4
  Count = 3
  Interval = 2
  Runners = {1, 2, 3}
  Requests = 8
  MaxTime = 26
  Buffer = 0
  Stale = FALSE
  Locked = TRUE
INVARIANTS Within Once
PROPERTY Served
CHECK_DEADLOCK FALSE
