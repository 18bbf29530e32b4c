SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
CONSTANT MaxSat = 5
CHECK_DEADLOCK TRUE
CONSTANT MaxDual = 6
