SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
CONSTANT MaxSat = 4
CHECK_DEADLOCK TRUE
CONSTANT MaxDual = 6
