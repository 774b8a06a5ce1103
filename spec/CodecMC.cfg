CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip PrefixFree TypeByte Versions IntExact Groups
CHECK_DEADLOCK FALSE
