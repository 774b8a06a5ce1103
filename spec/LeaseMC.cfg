SPECIFICATION Spec
CONSTANT Deep = FALSE
CONSTANTS
  Items <- SymItems
  PingOf <- SymPing
INVARIANTS L01 Rest Newest
PROPERTIES Settles Forward
CHECK_DEADLOCK FALSE
