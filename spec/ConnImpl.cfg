SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Refines Rests
PROPERTY Settles
CHECK_DEADLOCK FALSE
