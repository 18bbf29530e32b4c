INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Calls = 3 Decisions = 9
CHECK_DEADLOCK FALSE
