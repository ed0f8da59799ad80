SPECIFICATION Spec
INVARIANTS ByteByByte OneByte Concatenation Empty Bounds NoWrap Narrow
CHECK_DEADLOCK FALSE
