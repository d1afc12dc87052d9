SPECIFICATION Spec
CONSTANTS
  Section = 3
  Count = 2
  Interval = 1
  Runners = {1}
  Requests = 5
  MaxTime = 14
  Buffer = 2
  Stale = FALSE
  Locked = TRUE
INVARIANTS Within Once
PROPERTY Served
CHECK_DEADLOCK FALSE
