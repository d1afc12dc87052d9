SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2, 3}
  Size = 1
  Cap = 1
  Submitters = {s1}
  MaxPanics = 0
  MaxLean = 0
  FixLean = TRUE
  FixWake = FALSE
  FixFill = TRUE
  FixClose = TRUE
INVARIANTS TypeOK OneAtATime BoundedQueue FullStrength NoStuck DrainedAtEnd
PROPERTIES Refines AllRun Returns AllEnd
CHECK_DEADLOCK FALSE
