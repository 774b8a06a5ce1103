SPECIFICATION Spec
CONSTANTS
 Len0 = 3
CHECK_DEADLOCK FALSE
