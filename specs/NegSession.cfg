SPECIFICATION Spec
CONSTANTS
  Requests <- AllRequests
  Longest = 2
  KeepAlive = 3
  MaxTime = 7
  PauseWhileHandling = FALSE
INVARIANTS InOrder OnePerRequest NotLate
PROPERTIES LastIfNotKept NotEarly NotWhileHandling Released IdleEnds
CHECK_DEADLOCK FALSE
