CONSTANTS Mins = {5, 15, 20, 30, 40, 60}
Lvs = {10, 15, 35, 40}
Fns = {"Trace", "Debug", "Info", "Warn", "Error", "Fatal", "TraceCall", "DebugCall", "InfoCall", "LogAccess", "Log"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
