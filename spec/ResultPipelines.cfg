INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Length = 3
CHECK_DEADLOCK FALSE
