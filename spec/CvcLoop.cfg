SPECIFICATION Spec
INVARIANT Safety
PROPERTY Ends
CHECK_DEADLOCK FALSE
