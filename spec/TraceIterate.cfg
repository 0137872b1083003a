INIT TInit
NEXT TNext
CONSTANTS FailLo = 450 FailHi = 1050
CHECK_DEADLOCK TRUE
