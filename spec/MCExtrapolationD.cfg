INIT MInit
NEXT MNext
CONSTANTS Kind = "dense"
Ci = FALSE
INVARIANTS Orders Rows Sound Window Shrinks Careful Bounded OneByOne Gentle
VIEW View
CHECK_DEADLOCK FALSE
