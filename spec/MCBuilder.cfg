INIT Init
NEXT Next
INVARIANT Inv
INVARIANT Emit
CONSTANT Length = 4
CONSTANT MaxNodes = 6
CHECK_DEADLOCK FALSE
