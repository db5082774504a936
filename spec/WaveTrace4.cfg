SPECIFICATION Spec
CONSTANT K = 4
INVARIANT Contained
CHECK_DEADLOCK FALSE
