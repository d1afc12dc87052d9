CONSTANTS MaxRecords = 4  Counts = {2}  Sizes = {2, 3}
SPECIFICATION Spec
INVARIANTS Kept Small Few Chain
CHECK_DEADLOCK FALSE
