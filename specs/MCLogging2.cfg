CONSTANTS MaxRecords = 4  Counts = {1, 2}  Sizes = {1}
SPECIFICATION Spec
INVARIANTS Kept Small Few Chain
CHECK_DEADLOCK FALSE
