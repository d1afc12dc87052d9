SPECIFICATION Spec
CONSTANTS
  Kinds = {"gate", "quick", "panic", "gatepanic", "nest"}
  Depth = 30
  MaxSize = 3
  MaxCap = 4
  MayDrop = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
