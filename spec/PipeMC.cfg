SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Exact Order FindOnce All Both Rest
CHECK_DEADLOCK FALSE
