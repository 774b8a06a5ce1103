SPECIFICATION Spec
CONSTANT Deep = TRUE
CONSTANTS
  Enc <- SymEnc
  DecX <- SymDecX
  DecAll <- SymDecAll
INVARIANTS N01 N02 N03 Rest
PROPERTY Settles
CHECK_DEADLOCK FALSE
