SPECIFICATION Spec
INVARIANTS InsideSection OneAfterAnother RightCount Own Sku Rest3
PROPERTIES AllTaken
CHECK_DEADLOCK FALSE
