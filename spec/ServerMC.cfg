SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Once Own NoLate Authentic Rest Served Sealed
CHECK_DEADLOCK FALSE
