INIT Init
NEXT Next
CONSTANT MaxUlp = 2
CHECK_DEADLOCK TRUE
