INIT MInit
NEXT MNext
CONSTANTS P = 7
 MaxOps = 5
 Scheme = "verlet"
INVARIANTS AccBelongs Belongs
CHECK_DEADLOCK FALSE
