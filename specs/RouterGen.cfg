SPECIFICATION GSpec
CONSTANTS
  Methods = {"GET", "PUT"}
  Pieces <- GPieces
  Segments <- GSegments
  MaxLen = 3
  MaxRoutes = 7
  Depth = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
