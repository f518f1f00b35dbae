CONSTANTS Writes <- TraceWrites
 Modes = {"block"}
 Caps = {1}
 MayExpire = FALSE
SPECIFICATION TraceSpec
CONSTRAINT Progress
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
