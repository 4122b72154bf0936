SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS ReadBack
