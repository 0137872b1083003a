INIT TInit
NEXT TNext
CONSTANTS P = 46337
INVARIANTS AccBelongs
CHECK_DEADLOCK TRUE
