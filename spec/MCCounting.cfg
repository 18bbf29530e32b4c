INIT Init
NEXT Next
INVARIANT Inv
CONSTANT MaxNodes = 8
CHECK_DEADLOCK FALSE
