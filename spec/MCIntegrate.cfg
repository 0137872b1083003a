INIT MCInit
NEXT MCNext
CONSTANTS FailLo = 2 FailHi = 3 MaxSpan = 4 MaxD = 3 MaxN = 3
INVARIANTS TypeOK NeverBeyond Contiguous ObsBounded EndsAtEnd AllObserved GuardBounded
CHECK_DEADLOCK TRUE
