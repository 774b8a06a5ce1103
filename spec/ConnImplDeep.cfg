SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Refines Rests
PROPERTY Settles
CHECK_DEADLOCK FALSE
