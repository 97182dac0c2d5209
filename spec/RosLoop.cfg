SPECIFICATION Spec
INVARIANT Safety
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
