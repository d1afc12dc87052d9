SPECIFICATION Spec
CONSTANTS
  Kinds = {"gate", "quick", "panic", "gatepanic"}
  Depth = 30
  MaxSize = 3
  MaxCap = 4
  MayDrop = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
