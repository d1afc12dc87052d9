SPECIFICATION Spec
CONSTANTS
  MaxHandles = 2
  Ports = {1,2}
  Paths = {1}
  Calls = {1,2}
  MaxRoutes = 1
  Unwraps = FALSE
  Copies = FALSE
  Settings = {}
INVARIANTS OnePerPort InOrder Outcome Shared Served Own

CHECK_DEADLOCK FALSE
