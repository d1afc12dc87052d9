SPECIFICATION Spec
CONSTANTS
  Methods = {"GET", "PUT"}
  Pieces <- MCPieces
  Segments <- MCSegments
  MaxLen = 3
  MaxRoutes = 2
INVARIANTS TrieRefines Refuses Sound Reachable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
