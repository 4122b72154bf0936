SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS Sound Instance Shortest
