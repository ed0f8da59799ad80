SPECIFICATION Spec
INVARIANTS Contiguous OnlyLastMisfits Inside Justified StopsForAReason EndIsLast Bounded Local Stable
PROPERTIES Fused Terminates
CHECK_DEADLOCK FALSE
