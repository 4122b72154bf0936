SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS Normal Ring Field Division Gcd Ordered Rounding Power
