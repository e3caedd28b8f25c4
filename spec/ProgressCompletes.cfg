SPECIFICATION Spec
INVARIANT Completes
CHECK_DEADLOCK FALSE
