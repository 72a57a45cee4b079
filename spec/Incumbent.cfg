SPECIFICATION Spec
INVARIANTS Improves Best_ None_ Final Done
PROPERTY Grows
CHECK_DEADLOCK FALSE
