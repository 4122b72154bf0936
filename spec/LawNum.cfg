SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS Normal Ring Field Division Gcd Ordered Rounding Power
