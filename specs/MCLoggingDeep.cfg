CONSTANTS MaxRecords = 6  Counts = {2}  Sizes = {2}
SPECIFICATION Spec
INVARIANTS Kept Small Few Chain
CHECK_DEADLOCK FALSE
