INIT Init
NEXT Next
INVARIANT Safety
INVARIANT Emit
CHECK_DEADLOCK FALSE
