SPECIFICATION Spec
INVARIANT Inv
PROPERTY Complete
PROPERTY Ends
CONSTANTS Labels = {1, 2, 3} MaxRuns = 3
CHECK_DEADLOCK FALSE
