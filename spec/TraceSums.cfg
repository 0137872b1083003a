INIT TInit
NEXT TNext
CONSTANTS P = 46337
CHECK_DEADLOCK TRUE
