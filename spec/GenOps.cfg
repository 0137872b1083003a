INIT Init
NEXT Next
CONSTANTS MaxLen = 3
CHECK_DEADLOCK FALSE
