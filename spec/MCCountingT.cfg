INIT Init
NEXT Next
INVARIANT Inv
CONSTANT MaxNodes = 10
CHECK_DEADLOCK FALSE
