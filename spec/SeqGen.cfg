SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT InsertKeeps = FALSE
CONSTANT Full = 2
CONSTANT Core = 3
