SPECIFICATION Spec
CONSTANTS
  KeepAlive = 2
  MaxTime = 9
  MaxMsgs = 6
  LookFirst = FALSE
PROPERTIES NotEarly
CHECK_DEADLOCK FALSE
