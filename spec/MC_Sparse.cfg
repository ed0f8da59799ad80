SPECIFICATION Spec
INVARIANTS Agree
CHECK_DEADLOCK FALSE
