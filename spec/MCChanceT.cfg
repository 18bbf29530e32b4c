SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
CONSTANT Big = TRUE
CHECK_DEADLOCK FALSE
