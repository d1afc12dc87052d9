SPECIFICATION Spec
CONSTANTS Longest = 6
INVARIANT Agrees
CHECK_DEADLOCK FALSE
