SPECIFICATION Spec
CONSTANTS
  MaxHandles = 2
  Ports = {1}
  Paths = {1}
  Calls = {1}
  MaxRoutes = 1
  Unwraps = FALSE
  Copies = TRUE
  Settings = {}
INVARIANTS OnePerPort InOrder Outcome Shared Served Own

CHECK_DEADLOCK FALSE
