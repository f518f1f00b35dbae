SPECIFICATION TraceSpec
CONSTRAINT Progress
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
