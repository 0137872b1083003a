INIT MInitD
NEXT MNext
CONSTANTS P = 46337
MaxRow = 3
INVARIANTS Exact Embedded Sees Interp
CHECK_DEADLOCK FALSE
