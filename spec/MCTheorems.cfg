INIT TInit
NEXT TNext
INVARIANT TInv
CONSTANT MaxSat = 0
CHECK_DEADLOCK TRUE
CONSTANT MaxDual = 6
