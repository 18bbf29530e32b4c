INIT TInit
NEXT Next
CHECK_DEADLOCK TRUE
CONSTANT Largest = 11
