SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2, 3}
  Size = 2
  Cap = 2
  Submitters = {s1, s2}
  MaxPanics = 2
  MaxLean = 1
  FixLean = TRUE
  FixWake = TRUE
  FixFill = TRUE
  FixClose = TRUE
INVARIANTS TypeOK OneAtATime BoundedQueue FullStrength NoStuck DrainedAtEnd
PROPERTIES Refines AllRun Returns AllEnd
CHECK_DEADLOCK FALSE
