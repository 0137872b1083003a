INIT MInit
NEXT MNext
CONSTANTS P = 46337
MaxN = 3
Sizes = {1, 2, 5}
INVARIANTS Enough Exact Sees Tabled
CHECK_DEADLOCK FALSE
