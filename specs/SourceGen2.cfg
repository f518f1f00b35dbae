CONSTANTS MaxOps = 2
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
