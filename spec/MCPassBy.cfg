INIT Init
NEXT Next
CONSTANTS
  Depth = 6
  Careless = FALSE
INVARIANT Contract
CHECK_DEADLOCK FALSE
