INIT CInit
NEXT CNext
CONSTANTS P = 46337
INVARIANTS SymplecticForm Reversible Consistent M4Order Places
CHECK_DEADLOCK FALSE
