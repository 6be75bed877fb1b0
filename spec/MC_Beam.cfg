INIT Init
NEXT Next
INVARIANT Consistent
CHECK_DEADLOCK FALSE
