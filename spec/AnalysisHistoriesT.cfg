INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Length = 5
CHECK_DEADLOCK FALSE
