SPECIFICATION Spec
CONSTANTS
 Len0 = 5
CHECK_DEADLOCK FALSE
