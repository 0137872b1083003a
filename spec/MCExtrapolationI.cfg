INIT MInit
NEXT MNext
CONSTANTS Kind = "dense"
Ci = TRUE
INVARIANTS Orders Rows Sound Window Shrinks Careful Bounded OneByOne Gentle
VIEW View
CHECK_DEADLOCK FALSE
