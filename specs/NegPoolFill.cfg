SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2, 3}
  Size = 1
  Cap = 1
  Submitters = {s1}
  MaxPanics = 1
  MaxLean = 0
  FixLean = TRUE
  FixWake = TRUE
  FixFill = FALSE
  FixClose = TRUE
INVARIANTS TypeOK OneAtATime BoundedQueue FullStrength NoStuck DrainedAtEnd
PROPERTIES Refines AllRun Returns AllEnd
CHECK_DEADLOCK FALSE
