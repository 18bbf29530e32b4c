SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
CONSTANT Big = FALSE
CHECK_DEADLOCK FALSE
