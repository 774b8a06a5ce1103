SPECIFICATION Spec
CONSTANTS
 Len0 = 2
CHECK_DEADLOCK FALSE
