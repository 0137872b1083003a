INIT MInit
NEXT MNext
CONSTANTS Kind = "bs"
Ci = FALSE
INVARIANTS Orders Rows Sound Window Shrinks Careful Bounded OneByOne Gentle
VIEW View
CHECK_DEADLOCK FALSE
