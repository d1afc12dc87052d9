SPECIFICATION Spec
CONSTANTS
  FilterIds = {1, 2}
  HandlerIds = {101}
  MaxOwn = 2
  MaxGrp = 1
  Requests = {q1, q2}
INVARIANTS Ordered Complete
PROPERTIES Answered
CHECK_DEADLOCK FALSE
