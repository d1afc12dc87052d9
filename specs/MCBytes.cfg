SPECIFICATION Spec
INVARIANTS Inverse SplitJoins CutJoins DecNum Agree Other Texts
CHECK_DEADLOCK FALSE
