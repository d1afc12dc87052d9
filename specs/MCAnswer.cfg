SPECIFICATION Spec
CONSTANTS Wide = FALSE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
