SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2, 3}
  Size = 1
  Cap = 1
  Submitters = {s1, s2}
  MaxPanics = 1
  MaxLean = 1
  FixLean = TRUE
  FixWake = TRUE
  FixFill = TRUE
  FixClose = TRUE
INVARIANTS TypeOK OneAtATime BoundedQueue FullStrength NoStuck DrainedAtEnd
PROPERTIES Refines AllRun Returns AllEnd
CHECK_DEADLOCK FALSE
