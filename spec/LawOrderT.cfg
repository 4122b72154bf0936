SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
INVARIANTS Total Anti Ident Trans SortPerm
