SPECIFICATION Spec
CONSTANT Deep = TRUE
CONSTANTS
  Items <- SymItems
  PingOf <- SymPing
INVARIANTS L01 Rest Newest
PROPERTIES Settles Forward
CHECK_DEADLOCK FALSE
