SPECIFICATION Fair
CONSTANTS
  Clients = {1, 2}
  Workers = {1}
  Wide = FALSE
  Cuts = FALSE
INVARIANTS Once Sees Reports
PROPERTY Done
CHECK_DEADLOCK FALSE
