SPECIFICATION Spec
CONSTANTS
  MaxHandles = 3
  Ports = {1}
  Paths = {1}
  Calls = {1}
  MaxRoutes = 1
  Unwraps = FALSE
  Copies = FALSE
  Settings = {"comp"}
INVARIANTS OnePerPort InOrder Outcome Shared Served Own

CHECK_DEADLOCK FALSE
