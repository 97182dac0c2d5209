INIT Init
NEXT Next
INVARIANT Verdict
CHECK_DEADLOCK FALSE
