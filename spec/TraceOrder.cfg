INIT TInit
NEXT TNext
CONSTANTS P = 46337
  MaxOrd = 10
CHECK_DEADLOCK TRUE
