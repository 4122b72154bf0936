SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE
INVARIANTS Total Anti Ident Trans SortPerm
