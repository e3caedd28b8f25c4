SPECIFICATION Spec
INVARIANT Honoured
CHECK_DEADLOCK FALSE
