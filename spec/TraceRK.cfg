INIT TInit
NEXT TNext
CONSTANTS P = 46337
INVARIANTS DerivBelongs DenseBelongs
CHECK_DEADLOCK TRUE
