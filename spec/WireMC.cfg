CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANTS Delivered NotStuck RoundTrip Flips Lens
CHECK_DEADLOCK FALSE
