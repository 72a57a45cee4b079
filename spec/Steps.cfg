SPECIFICATION Spec
INVARIANTS Sound Complete Levels Memory Done
CHECK_DEADLOCK FALSE
