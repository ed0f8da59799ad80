SPECIFICATION Spec
INVARIANTS Partition Described Ascending Maximal MakeUp SigSet One
CHECK_DEADLOCK FALSE
