INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Length = 15
CHECK_DEADLOCK FALSE
