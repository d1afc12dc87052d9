SPECIFICATION Spec
CONSTANTS
  Clients = {1}
  Workers = {1}
  Wide = TRUE
  Cuts = TRUE
INVARIANTS Once Sees Reports
CHECK_DEADLOCK FALSE
