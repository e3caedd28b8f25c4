SPECIFICATION Spec
INVARIANT Safe
INVARIANT Once
CHECK_DEADLOCK FALSE
