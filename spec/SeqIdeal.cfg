SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANT InsertKeeps = TRUE
