SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2}
  Size = 1
  Cap = 1
  Submitters = {s1}
  MaxPanics = 0
  MaxLean = 0
  FixLean = TRUE
  FixWake = TRUE
  FixFill = TRUE
  FixClose = FALSE
INVARIANTS TypeOK OneAtATime BoundedQueue FullStrength NoStuck DrainedAtEnd
PROPERTIES Refines AllRun Returns AllEnd
CHECK_DEADLOCK FALSE
