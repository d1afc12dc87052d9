SPECIFICATION Fair
CONSTANTS
  MaxHandles = 1
  Ports = {1,2}
  Paths = {1}
  Calls = {1,2}
  MaxRoutes = 0
  Unwraps = FALSE
  Copies = FALSE
  Settings = {}
INVARIANTS OnePerPort InOrder Outcome Shared Served Own
PROPERTY Ends
CHECK_DEADLOCK FALSE
