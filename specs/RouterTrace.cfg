SPECIFICATION TSpec
CONSTANTS
  Methods = {}
  Pieces = {}
  Segments = {}
  MaxLen = 1
  MaxRoutes = 1
INVARIANT Report
CHECK_DEADLOCK FALSE
