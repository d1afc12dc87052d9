SPECIFICATION Spec
CONSTANTS
  MaxHandles = 1
  Ports = {1,2}
  Paths = {1}
  Calls = {1}
  MaxRoutes = 0
  Unwraps = TRUE
  Copies = FALSE
  Settings = {}
INVARIANTS OnePerPort InOrder Outcome Shared Served Own

CHECK_DEADLOCK FALSE
