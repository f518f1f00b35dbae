CONSTANTS Mins = {0, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 60, 70}
Lvs = {5, 10, 15, 25, 30, 35, 40, 55, 100}
Fns = {"Trace", "Debug", "Info", "Warn", "Error", "Fatal", "TraceCall", "DebugCall", "InfoCall", "LogAccess", "Log"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
