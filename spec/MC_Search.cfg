SPECIFICATION Spec
INVARIANTS AtOnce NothingSkipped Aligned Agrees Sound Complete Detects Later Earlier
PROPERTIES Found Final
CHECK_DEADLOCK FALSE
