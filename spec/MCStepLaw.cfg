SPECIFICATION MSpec
CONSTANT Top = 70
INVARIANTS Shrinks Bounded Grows NoLoop
PROPERTY Progress
CHECK_DEADLOCK FALSE
