CONSTANTS MaxOps = 5
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
