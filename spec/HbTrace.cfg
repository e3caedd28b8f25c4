SPECIFICATION Spec
INVARIANT Ordered
CHECK_DEADLOCK FALSE
