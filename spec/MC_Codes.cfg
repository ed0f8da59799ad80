SPECIFICATION Spec
INVARIANTS Different HasText HasName Keeps
CHECK_DEADLOCK FALSE
