INIT MInit
NEXT MNext
CONSTANTS P = 46337
INVARIANTS Linear Quadrature Nested Companion Continuous Estimate
CHECK_DEADLOCK FALSE
