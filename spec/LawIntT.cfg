SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS Holds
