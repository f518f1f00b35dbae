CONSTANTS MaxLen = 7
 Kinds = {"n", "p", "a", "b", "r"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
