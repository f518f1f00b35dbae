CONSTANTS Levels = {0, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 55, 60, 65, 70}
SPECIFICATION Spec
INVARIANTS ErrorsAlways Threshold CallThreshold ContextSame LogSame Never CountsAll
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
