SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2, 3, 4}
  Size = 2
  Cap = 1
  Submitters = {s1, s2}
  MaxPanics = 1
  MaxLean = 1
  FixLean = TRUE
  FixWake = TRUE
  FixFill = TRUE
  FixClose = TRUE
INVARIANTS TypeOK OneAtATime BoundedQueue FullStrength NoStuck DrainedAtEnd
PROPERTIES Refines
CHECK_DEADLOCK FALSE
