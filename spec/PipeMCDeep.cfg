SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Exact Order FindOnce All Both Rest
PROPERTY Settles
CHECK_DEADLOCK FALSE
