INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Length = 8
CHECK_DEADLOCK FALSE
