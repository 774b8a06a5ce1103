SPECIFICATION GenSpec
CONSTANTS
 Deep = FALSE
 Len0 = 6
CHECK_DEADLOCK FALSE
