SPECIFICATION Spec
CONSTANTS
  Section = 2
  Count = 1
  Interval = 3
  Runners = {1}
  Requests = 4
  MaxTime = 18
  Buffer = 0
  Stale = FALSE
  Locked = TRUE
INVARIANTS Within Once
PROPERTY Served
CHECK_DEADLOCK FALSE
