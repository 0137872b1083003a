INIT MCInit
NEXT MCNext
CONSTANTS MaxLen = 4
INVARIANTS Untouched OncePerElement Outcome
