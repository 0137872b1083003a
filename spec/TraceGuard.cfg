INIT Init
NEXT Next
INVARIANT Bounded
CHECK_DEADLOCK TRUE
