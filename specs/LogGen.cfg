CONSTANTS MaxLen = 2
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
