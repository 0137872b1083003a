INIT Init
NEXT Next
CONSTANTS P = 46337
CHECK_DEADLOCK FALSE
