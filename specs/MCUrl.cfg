SPECIFICATION Spec
CONSTANTS Longest = 4
INVARIANT Agrees
CHECK_DEADLOCK FALSE
