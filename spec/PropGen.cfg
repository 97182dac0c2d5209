INIT Init
NEXT Next
INVARIANT EmitSession
CHECK_DEADLOCK FALSE
