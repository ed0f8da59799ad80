SPECIFICATION Spec
INVARIANTS Agree Begins
CHECK_DEADLOCK FALSE
