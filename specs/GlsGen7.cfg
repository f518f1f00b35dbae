CONSTANTS MaxOps = 7
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
