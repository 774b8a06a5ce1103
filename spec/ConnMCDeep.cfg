SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS T02 T06 T08 T09 T10 Rest
PROPERTY Settles
CHECK_DEADLOCK FALSE
