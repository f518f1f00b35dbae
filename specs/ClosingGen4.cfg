CONSTANTS MaxLen = 4
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
