SPECIFICATION GenSpec
CONSTANTS
 Deep = FALSE
 Len0 = 5
CHECK_DEADLOCK FALSE
