SPECIFICATION Spec
INVARIANT Inv
PROPERTY Returns
CONSTANTS MaxNodes = 3 Budget = 3 MaxCalls = 3
CHECK_DEADLOCK FALSE
