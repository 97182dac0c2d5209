INIT Init
NEXT GenNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
