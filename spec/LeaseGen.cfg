SPECIFICATION Spec
CONSTANTS
 Len0 = 4
CHECK_DEADLOCK FALSE
