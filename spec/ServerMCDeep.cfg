SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Once Own NoLate Authentic Rest Served Sealed
PROPERTY Settles
CHECK_DEADLOCK FALSE
