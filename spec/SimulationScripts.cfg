INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Calls = 2 Decisions = 8
CHECK_DEADLOCK FALSE
