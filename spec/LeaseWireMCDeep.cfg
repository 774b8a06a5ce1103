SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Means Distinct Pings Other Short Cut
CHECK_DEADLOCK FALSE
