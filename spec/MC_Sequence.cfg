SPECIFICATION Spec
INVARIANTS Right Exact
CHECK_DEADLOCK FALSE
