SPECIFICATION Spec
CONSTANT Fixed = TRUE
INVARIANTS NoMix Grammar Sealed
PROPERTY Works
CHECK_DEADLOCK FALSE
