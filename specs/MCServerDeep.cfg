SPECIFICATION Spec
CONSTANTS
  Conns = {c1,c2,c3}
  Workers = 2
  Longest = 2
INVARIANTS Own Once Bounded
PROPERTIES Served FullStrength
CHECK_DEADLOCK FALSE
