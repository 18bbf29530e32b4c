INIT TInit
NEXT Next
CHECK_DEADLOCK TRUE
