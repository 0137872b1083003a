INIT MInit
NEXT MNext
CONSTANTS MaxLen = 4
 MaxParts = 3
INVARIANTS Lossless NormSame
CHECK_DEADLOCK FALSE
