SPECIFICATION Spec
CONSTANTS
  Requests <- AllRequests
  Longest = 4
  KeepAlive = 3
  MaxTime = 10
  PauseWhileHandling = TRUE
INVARIANTS InOrder OnePerRequest NotLate
PROPERTIES LastIfNotKept NotEarly NotWhileHandling Released IdleEnds
CHECK_DEADLOCK FALSE
