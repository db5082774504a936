SPECIFICATION Spec
CONSTANT K = 2
INVARIANT Contained
CHECK_DEADLOCK FALSE
