SPECIFICATION Spec
INVARIANT Listed
CHECK_DEADLOCK FALSE
