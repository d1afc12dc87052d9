SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Workers = {1, 2}
  Wide = FALSE
  Cuts = TRUE
INVARIANTS Once Sees Reports
CHECK_DEADLOCK FALSE
