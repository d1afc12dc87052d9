SPECIFICATION Spec
CONSTANTS
  FilterIds = {1, 2, 3}
  HandlerIds = {101}
  MaxOwn = 2
  MaxGrp = 2
  Requests = {q1, q2}
INVARIANTS Ordered Complete
CHECK_DEADLOCK FALSE
