SPECIFICATION Spec
INVARIANT Law
CONSTRAINT Write
CHECK_DEADLOCK FALSE
