SPECIFICATION Spec
INVARIANT NonBlocking
CHECK_DEADLOCK FALSE
