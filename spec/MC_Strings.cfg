SPECIFICATION Spec
INVARIANTS Splits NoEmpty TextAgrees Numbers Independent ListIsPrefix
CHECK_DEADLOCK FALSE
