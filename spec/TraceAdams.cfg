INIT TInit
NEXT TNext
CONSTANTS P = 46337
INVARIANTS Bounded OneSize
CHECK_DEADLOCK TRUE
