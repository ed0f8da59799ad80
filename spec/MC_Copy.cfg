SPECIFICATION Spec
INVARIANTS Undisturbed SameEnd
CHECK_DEADLOCK FALSE
