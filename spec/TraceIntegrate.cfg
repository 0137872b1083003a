INIT TInit
NEXT TNext
CONSTANTS FailLo = 450 FailHi = 550
INVARIANTS TypeOK NeverBeyond Contiguous ObsBounded EndsAtEnd AllObserved GuardBounded
CHECK_DEADLOCK TRUE
