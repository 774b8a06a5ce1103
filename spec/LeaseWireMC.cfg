SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Means Distinct Pings Other Short Cut
CHECK_DEADLOCK FALSE
