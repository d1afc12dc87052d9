SPECIFICATION Spec
CONSTANTS
  Methods = {"GET"}
  Pieces <- MCPieces
  Segments <- MCSegments
  MaxLen = 2
  MaxRoutes = 3
INVARIANTS TrieRefines Refuses Sound Reachable
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
