CONSTANTS Writes = {1, 2, 3, 4, 5}
 Modes = {"block", "drop"}
 Caps = {1, 2}
 MayExpire = FALSE
 MaxOps = 7
SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
