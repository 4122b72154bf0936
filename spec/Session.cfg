SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Hist = FALSE
