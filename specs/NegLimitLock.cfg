SPECIFICATION Spec
CONSTANTS
  Section = 3
  Count = 2
  Interval = 1
  Runners = {1, 2}
  Requests = 5
  MaxTime = 14
  Buffer = 0
  Stale = FALSE
  Locked = FALSE
INVARIANTS Within Once
PROPERTY Served
CHECK_DEADLOCK FALSE
