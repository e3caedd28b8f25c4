SPECIFICATION Spec
INVARIANT Once
INVARIANT Left
CHECK_DEADLOCK FALSE
