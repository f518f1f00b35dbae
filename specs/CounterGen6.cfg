CONSTANTS MaxOps = 6
 GenGs = {1, 2, 3}
 GenKs = {1, 2}
SPECIFICATION GenSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
