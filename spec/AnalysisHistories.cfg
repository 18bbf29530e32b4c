INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Length = 4
CHECK_DEADLOCK FALSE
