SPECIFICATION Spec
CONSTANT K = 1
INVARIANT Contained
CHECK_DEADLOCK FALSE
