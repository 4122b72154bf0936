CONSTANT Deep = TRUE
SPECIFICATION LSpec
INVARIANT Holds
CHECK_DEADLOCK FALSE
