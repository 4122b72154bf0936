SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS Sound Instance Shortest
