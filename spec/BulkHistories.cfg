INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Labels = {0, 1, 2} Runs = 2 JobCounts = {1, 3}
CHECK_DEADLOCK FALSE
