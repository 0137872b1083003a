INIT Init
NEXT Next
CONSTANTS P = 46337
  MaxOrd = 10
INVARIANTS OrderHolds EmbeddedHolds RowsHold ContHolds
CHECK_DEADLOCK FALSE
