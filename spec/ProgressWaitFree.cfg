SPECIFICATION Spec
INVARIANT WaitFree
CHECK_DEADLOCK FALSE
