CONSTANT Deep = FALSE
SPECIFICATION LSpec
INVARIANT Holds
CHECK_DEADLOCK FALSE
