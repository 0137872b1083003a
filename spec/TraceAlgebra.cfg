INIT TInit
NEXT TNext
INVARIANTS AInv
CHECK_DEADLOCK TRUE
