SPECIFICATION Spec
CONSTANTS
  KeepAlive = 2
  MaxTime = 8
  MaxMsgs = 5
  LookFirst = TRUE
PROPERTIES NotEarly
CHECK_DEADLOCK FALSE
