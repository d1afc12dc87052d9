SPECIFICATION Spec
CONSTANTS Wide = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
